// C26: files of any origin are read as the format says, and the options given to "Open" are honoured.
#include "doc.hpp"
#include <climits>
using namespace vh; using namespace doc;
using OO = libCZI::ICZIReader::OpenOptions; using Pol = OO::SubBlockDirectoryInfoPolicy; using PE = libCZI::LibCZICZIParseException;

static Pol policy(bool header, bool ignore) { return (Pol)((header ? 1 : 0) | (ignore ? 0x80 : 0)); }
static OO options(Rng& r, bool lax, bool ignoreM) { OO o; o.SetDefault(); o.lax_subblock_coordinate_checks = lax; o.ignore_sizem_for_pyramid_subblocks = ignoreM; o.subBlockDirectoryInfoPolicy = policy(r.chance(50), r.chance(50)); return o; }
static std::string show(const OO& o) { std::ostringstream s; s << (o.lax_subblock_coordinate_checks ? "lax" : "strict") << (o.ignore_sizem_for_pyramid_subblocks ? ",ignore-M" : "") << ",policy=" << (int)o.subBlockDirectoryInfoPolicy; return s.str(); }
static Doc document(Rng& r, bool needSb)
{
    Gen g; g.maxSb = r.chance(10) ? 40 : 8; if (needSb) g.minSb = 1; g.maxPayload = r.chance(10) ? 8000 : 300; return randomDoc(r, g);
}
static MemFileP file(Rng& r, const Doc& d, Layout& lay)
{
    lay.huge = r.chance(15); auto f = makeFile(); f->data = compose(r, d, lay); f->holeAt = lay.holeAt; f->holeLen = lay.holeLen; if (lay.huge) ev("huge-file"); return f;
}
static void header(libCZI::ICZIReader* rd, const Doc& d, const Layout& lay)
{
    auto h = rd->GetFileHeaderInfo(); VH_CHECK(guidEq(h.fileGuid, d.guid), "file-header", "file GUID"); VH_EQ(h.majorVersion, lay.major, "file-header", "major version"); VH_EQ(h.minorVersion, lay.minor, "file-header", "minor version"); ctx().evals++;
}
// no error may be reported for a file which follows the specification, and everything in it must be seen
static void conforming(Rng& r)
{
    Doc d = document(r, false); Layout lay; lay.tweak = [](size_t, bool, std::vector<Dm>&) {}; lay.zeroSlack = r.chance(40); lay.usedZero = r.chance(20); if (r.chance(40)) { lay.major = r.range(0, 5); lay.minor = r.range(0, 20); } auto pg = randomGuid(r); if (r.chance(50)) lay.primary = &pg;
    if (r.chance(30)) lay.tweak = [&](size_t, bool, std::vector<Dm>& v) { for (auto& x : v) if (r.chance(30)) { x.c = (char)tolower(x.c); } }; // (the letters are not case-sensitive)
    auto f = file(r, d, lay); OO o = options(r, r.chance(40), r.chance(50)); ctx().currentDesc = "conforming, " + show(o) + "; " + summary(d); ctx().sample(ctx().currentDesc);
    f->record = true; auto rd = openReader(f, r.chance(20) ? nullptr : &o); compareContent(d, rd.get(), "reader of a conforming file"); header(rd.get(), d, lay); ev("conforming-read"); ctx().seenHash(hash64(f->data.data(), f->data.size()));
    if (!d.hasMd) { bool t = false; try { t = rd->ReadMetadataSegment() == nullptr; } catch (const libCZI::LibCZISegmentNotPresent&) { t = true; } VH_CHECK(t, "metadata-absent", "metadata which does not exist"); }
}
// exactly the entries which do not conform are refused by the strict checks, and the lax ones accept them
static void nonconforming(Rng& r)
{
    Doc d = document(r, true); const size_t k = r.below(d.sb.size()); Sb& s = d.sb[k]; int kind = (int)r.below(6); if (kind <= 2 && s.coord.empty()) s.coord[2] = r.range(0, 3);
    if (kind >= 3 && kind <= 4) { if (!s.mValid) { s.mValid = true; s.m = r.range(0, 1000); } bool l0 = kind == 3; if (l0) { s.w = s.pw; s.h = s.ph; } else if (s.layer0()) { if (r.chance(50)) s.w = s.pw * 2; else s.h = s.ph * 2; if (r.chance(50)) { s.w = s.pw * 3; s.h = s.ph * 3; } } }
    const int bad = r.pick({ 0, 2, 2, 3, 100, -1, -5 }); const bool both = r.chance(50), dropX = r.chance(50), dropBoth = r.chance(20); const uint64_t which = r.next();
    Layout lay; lay.zeroSlack = r.chance(40); static const char* names[] = { "size of a dimension", "stored size of a dimension", "size and stored size of a dimension", "size of M, layer 0", "size of M, pyramid", "X or Y missing" };
    lay.tweak = [&](size_t i, bool dir, std::vector<Dm>& v)
    {
        if (i != k || (!dir && !both)) return;
        if (kind <= 2) { std::vector<Dm*> c; for (auto& x : v) if (!strchr("XYM", x.c)) c.push_back(&x); auto& x = *c[which % c.size()]; if (kind != 1) x.size = bad; if (kind != 0) x.stored = bad; }
        else if (kind <= 4) { for (auto& x : v) if (x.c == 'M') x.size = bad; }
        else { std::vector<Dm> w; for (auto& x : v) if (!((x.c == 'X' && (dropX || dropBoth)) || (x.c == 'Y' && (!dropX || dropBoth)))) w.push_back(x); v = w; }
    };
    auto f = file(r, d, lay); const char* nm = names[kind];
    for (int lax = 0; lax < 2; ++lax) for (int im = 0; im < 2; ++im)
    {
        OO o = options(r, lax != 0, im != 0); ctx().currentDesc = std::string("nonconforming: ") + nm + ", " + show(o) + "; sub-block " + s.infoKey(); const bool expect = lax || (kind == 4 && im); auto rd = libCZI::CreateCZIReader(); bool ok = true;
        const bool dflt = lax && !im && r.chance(40); try { rd->Open(std::make_shared<MemIn>(f), dflt ? nullptr : &o); }
        catch (const PE& e) { ok = false; VH_CHECK(!expect, "conforming-refused", "refused: " << e.what()); VH_EQ((int)e.GetErrorCode(), (int)PE::ErrorCode::NonConformingSubBlockDimensionEntry, "refusal-kind", e.what()); }
        VH_CHECK(ok == expect, "nonconforming-accepted", "the strict checks accept it"); ev(std::string(ok ? "accepted: " : "refused: ") + nm); ctx().evals++; ctx().seen(ctx().currentDesc);
        if (ok && kind != 5) { compareContent(d, rd.get(), "reader of a nonconforming file"); header(rd.get(), d, lay); }
        if (!ok) { OO l; l.SetDefault(); rd->Open(std::make_shared<MemIn>(f), &l); if (kind != 5) compareContent(d, rd.get(), "reader opened again without the strict checks"); ev("opened-after-refusal"); } // a failed Open leaves the reader usable
    }
}
// the description in the directory and the one in the segment differ
static void discrepancy(Rng& r)
{
    Doc d = document(r, true); std::vector<Sb> inner = d.sb; const size_t k = r.below(d.sb.size()); Sb& q = d.sb[k]; Sb& s = inner[k]; int kind = (int)r.below(14); std::string nm; bool differs = true; auto other = [&](int v) { return v == INT_MAX ? v - 1 : r.chance(70) ? v + 1 : v ^ (1 << r.below(20)); };
    switch (kind)
    {
    case 0: nm = "x"; s.x = other(q.x); break;
    case 1: nm = "y"; s.y = other(q.y); break;
    case 2: nm = "width"; s.w = q.w + r.range(1, 5); break;
    case 3: nm = "height"; s.h = q.h + r.range(1, 5); break;
    case 4: nm = "stored width"; s.pw = q.pw + r.range(1, 5); break;
    case 5: nm = "stored height"; s.ph = q.ph + r.range(1, 5); break;
    case 6: nm = "pixel type"; s.pt = q.pt == 0 ? 1 : 0; break;
    case 7: nm = "compression"; s.comp = q.comp == 0 ? 1000 : 0; break;
    case 8: nm = "coordinate"; if (q.coord.empty()) { q.coord[2] = 1; s.coord[2] = 2; } else { auto it = s.coord.begin(); std::advance(it, (long)r.below(s.coord.size())); it->second = other(it->second); } break;
    case 9: nm = "dimension missing"; if (q.coord.empty()) q.coord[2] = 1; else { auto it = s.coord.begin(); std::advance(it, (long)r.below(s.coord.size())); s.coord.erase(it); } break;
    case 10: nm = "dimension added"; { int dm = 1; while (s.coord.count(dm)) ++dm; if (dm > 9) { s.coord.erase(1); nm = "dimension missing"; } else s.coord[dm] = r.range(-2, 3); } break;
    case 11: nm = "M"; if (!q.mValid) { q.mValid = s.mValid = true; q.m = s.m = 5; } s.m = q.m == 0 ? 1 : q.m - 1; break;
    case 12: nm = "M present"; if (q.mValid) { s.mValid = false; s.m = 0; } else { s.mValid = true; s.m = r.range(0, 10); } break;
    default: nm = "pyramid type"; s.pyr = (q.pyr + 1) % 3; differs = false; break; // (the file format's specification does not know of it, it is not compared)
    }
    const bool swapRoles = r.chance(50); if (swapRoles) std::swap(q, s);
    Layout lay; lay.tweak = [](size_t, bool, std::vector<Dm>&) {}; lay.embedded = &inner; lay.zeroSlack = r.chance(40); auto f = file(r, d, lay); std::multiset<std::string> exp; for (auto& e : d.sb) exp.insert(e.infoKey());
    for (int header = 0; header < 2; ++header) for (int ign = 0; ign < 2; ++ign)
    {
        OO o = options(r, r.chance(50), r.chance(50)); o.subBlockDirectoryInfoPolicy = policy(header != 0, ign != 0); ctx().currentDesc = "discrepancy: " + nm + ", " + show(o) + "; directory " + q.infoKey() + ", segment " + s.infoKey(); ctx().seen(ctx().currentDesc); ctx().sample(ctx().currentDesc);
        const bool dflt = !header && !ign && r.chance(50); auto rd = openReader(f, dflt ? nullptr : &o); std::multiset<std::string> got, all; size_t hits = 0, thrown = 0; std::vector<int> idx;
        rd->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& inf) { got.insert(fromInfo(inf).infoKey()); idx.push_back(i); return true; }); VH_CHECK(exp == got, "directory-content", diffMultiset(exp, got));
        std::multiset<std::string> want; for (size_t i = 0; i < d.sb.size(); ++i) if (i != k) want.insert(d.sb[i].key());
        if (ign || !differs) { Sb w = header ? s : q; w.data = d.sb[k].data; w.md = d.sb[k].md; w.att = d.sb[k].att; want.insert(w.key()); }
        for (int i : idx)
        {
            std::shared_ptr<libCZI::ISubBlock> sb; try { sb = rd->ReadSubBlock(i); } catch (const PE& e) { ++thrown; VH_EQ((int)e.GetErrorCode(), (int)PE::ErrorCode::SubBlockDirectoryToSubBlockHeaderMismatch, "discrepancy-error", e.what()); continue; }
            VH_CHECK(sb != nullptr, "subblock-read", "nothing for index " << i); all.insert(fromSubBlock(sb.get()).key()); ++hits; ctx().evals++;
            if (r.chance(30)) { auto inf = sb->GetSubBlockInfo(); try { auto b = sb->CreateBitmap(); VH_CHECK(b->GetPixelType() == inf.pixelType && b->GetWidth() == inf.physicalSize.w && b->GetHeight() == inf.physicalSize.h, "bitmap-geometry", "bitmap does not correspond to the sub-block's description"); ev("bitmap-created"); } catch (const Violation&) { throw; } catch (const std::exception&) { ev("bitmap-refused"); } }
        }
        const size_t expThrown = differs && !ign ? 1 : 0; VH_EQ(thrown, expThrown, "discrepancy-detection", "number of sub-blocks refused because of a discrepancy"); VH_CHECK(want == all, "discrepancy-precedence", diffMultiset(want, all));
        ev("discrepancy: " + nm); ev(expThrown ? "discrepancy-reported" : header ? "header-precedence" : "directory-precedence");
    }
}
static void oneCase(Rng& r, uint64_t n) { switch (n % 3) { case 0: conforming(r); break; case 1: nonconforming(r); break; default: discrepancy(r); } }
int main(int argc, char** argv) { return runMain(argc, argv, "C26", Options{ 3000, 60000 }, oneCase); }
