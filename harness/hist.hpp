// A random editing history on a CZI file through the reader-writer, with a model of the expected state.
#pragma once
#include "doc.hpp"
#include "stats.hpp"

namespace hist
{
    using namespace vh; using namespace doc;
    struct Model
    {
        std::map<int, Sb> sb; std::map<int, At> at; bool hasMd = false; std::string xml; Bytes mdAtt;
        Doc toDoc() const { Doc d; for (auto& e : sb) d.sb.push_back(e.second); for (auto& e : at) d.at.push_back(e.second); d.hasMd = hasMd; d.xml = xml; d.mdAtt = mdAtt; return d; }
    };
    struct Opts { int steps = 20; bool invalidOps = true; bool checkStats = false; bool compareOften = true; int maxPayload = 1500; };

    struct Session
    {
        Rng& r; MemFileP f; Model m; std::shared_ptr<libCZI::ICziReaderWriter> rw; std::vector<int> dims; std::string log; Opts o;
        Session(Rng& r, MemFileP f, const Opts& o) : r(r), f(std::move(f)), o(o) {}
        void note(const std::string& s) { log += s + ";"; ctx().currentDesc = log.size() > 1500 ? "..." + log.substr(log.size() - 1500) : log; }

        // map the model's items to the indices the object reports (matching by content of the information)
        void open(const Doc& d, const std::shared_ptr<libCZI::ICziReaderWriterInfo>& info = nullptr)
        {
            rw = libCZI::CreateCZIReaderWriter(); rw->Create(std::make_shared<MemInOut>(f), info); note("open");
            adopt(d);
        }
        void adopt(const Doc& d)
        {
            m = Model(); m.hasMd = d.hasMd; m.xml = d.xml; m.mdAtt = d.mdAtt;
            std::multimap<std::string, const Sb*> byInfo; for (auto& s : d.sb) byInfo.insert({ s.key(), &s });
            std::vector<int> idx; rw->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo&) { idx.push_back(i); return true; });
            VH_EQ(idx.size(), d.sb.size(), "rw-subblock-count", "after opening");
            for (int i : idx)
            {
                auto s = rw->ReadSubBlock(i); VH_CHECK(s != nullptr, "rw-subblock-read", "index " << i);
                Sb q = fromSubBlock(s.get()); auto it = byInfo.find(q.key());
                VH_CHECK(it != byInfo.end(), "rw-subblock-content", "after opening: index " << i << " has unexpected content " << q.key());
                m.sb[i] = *it->second; byInfo.erase(it);
            }
            std::multimap<std::string, const At*> byAt; for (auto& a : d.at) byAt.insert({ a.key(), &a });
            std::vector<int> ia; rw->EnumerateAttachments([&](int i, const libCZI::AttachmentInfo&) { ia.push_back(i); return true; });
            VH_EQ(ia.size(), d.at.size(), "rw-attachment-count", "after opening");
            for (int i : ia)
            {
                auto a = rw->ReadAttachment(i); VH_CHECK(a != nullptr, "rw-attachment-read", "index " << i);
                At q = fromAttachment(a.get()); auto it = byAt.find(q.key()); VH_CHECK(it != byAt.end(), "rw-attachment-content", "after opening: index " << i << " has unexpected content " << q.key());
                m.at[i] = *it->second; byAt.erase(it);
            }
        }
        int newSbIndex() { int n = -1; size_t cnt = 0; rw->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo&) { ++cnt; if (!m.sb.count(i)) n = i; return true; }); VH_EQ(cnt, m.sb.size() + 1, "rw-subblock-count", "after adding a sub-block"); VH_CHECK(n >= 0, "rw-add-index", "the added sub-block is not enumerated"); return n; }
        int newAtIndex() { int n = -1; size_t cnt = 0; rw->EnumerateAttachments([&](int i, const libCZI::AttachmentInfo&) { ++cnt; if (!m.at.count(i)) n = i; return true; }); VH_EQ(cnt, m.at.size() + 1, "rw-attachment-count", "after adding an attachment"); VH_CHECK(n >= 0, "rw-add-index", "the added attachment is not enumerated"); return n; }

        void checkSb(int i)
        {
            auto s = rw->ReadSubBlock(i); VH_CHECK(s != nullptr, "rw-subblock-read", "ReadSubBlock(" << i << ")");
            Sb q = fromSubBlock(s.get()); VH_CHECK(q.key() == m.sb[i].key(), "rw-subblock-content", "sub-block " << i << " is " << q.key() << " expected " << m.sb[i].key());
            libCZI::SubBlockInfo inf; VH_CHECK(rw->TryGetSubBlockInfo(i, &inf), "rw-subblock-info", "TryGetSubBlockInfo(" << i << ")"); VH_EQ(fromInfo(inf).infoKey(), m.sb[i].infoKey(), "rw-subblock-info", "TryGetSubBlockInfo(" << i << ")");
            ev("rw-subblock-compared");
        }
        void checkAt(int i)
        {
            auto a = rw->ReadAttachment(i); VH_CHECK(a != nullptr, "rw-attachment-read", "ReadAttachment(" << i << ")");
            VH_EQ(fromAttachment(a.get()).key(), m.at[i].key(), "rw-attachment-content", "attachment " << i);
            libCZI::AttachmentInfo inf; VH_CHECK(rw->TryGetAttachmentInfo(i, &inf), "rw-attachment-info", i); VH_EQ(fromAtInfo(inf).infoKey(), m.at[i].infoKey(), "rw-attachment-info", "TryGetAttachmentInfo(" << i << ")");
            ev("rw-attachment-compared");
        }
        void checkAll()
        {
            Doc d = m.toDoc(); compareContent(d, rw.get(), "reader-writer");
            if (!m.hasMd) { auto md = rw->ReadMetadataSegment(); VH_CHECK(md == nullptr, "rw-metadata", "a metadata segment appeared from nowhere"); }
            std::map<int, std::string> e, g; for (auto& s : m.sb) e[s.first] = s.second.infoKey();
            rw->EnumerateSubBlocks([&](int i, const libCZI::SubBlockInfo& inf) { g[i] = fromInfo(inf).infoKey(); return true; });
            VH_CHECK(e == g, "rw-subblock-info", "indices and information reported by EnumerateSubBlocks");
            std::map<int, std::string> ea, ga; for (auto& s : m.at) ea[s.first] = s.second.infoKey();
            rw->EnumerateAttachments([&](int i, const libCZI::AttachmentInfo& inf) { ga[i] = fromAtInfo(inf).infoKey(); return true; });
            VH_CHECK(ea == ga, "rw-attachment-info", "indices and information reported by EnumerateAttachments");
            VH_EQ((size_t)rw->GetAttachmentCount(), m.at.size(), "rw-attachment-count", "GetAttachmentCount");
            ev("rw-full-compare");
        }
        void checkStatistics() { stats::check(m.toDoc().sb, rw->GetStatistics(), rw->GetPyramidStatistics(), r.chance(50), "reader-writer"); ev("rw-statistics"); }

        Sb freshSb(const Sb* base = nullptr)
        {
            Gen g; g.maxPayload = o.maxPayload;
            for (;;)
            {
                Sb s = randomSb(r, g, dims);
                if (base && r.chance(60)) { Bytes d = s.data, md = s.md, at = s.att; int32_t c = s.comp; int pw = s.pw, ph = s.ph, pt = s.pt; bool consistent = c == 0 && d.size() == (size_t)pw * ph * bpp(pt); s = *base; s.md = md; s.att = at; s.data = d; s.comp = c; if (consistent) { s.pw = pw; s.ph = ph; s.pt = pt; if (r.chance(50)) { s.w = pw; s.h = ph; } } }
                bool c = false; for (auto& e : m.sb) if (&e.second != base && e.second.coord == s.coord && e.second.mValid && s.mValid && e.second.m == s.m) c = true;
                if (!c) return s;
                s.mValid = true;
            }
        }
        template <typename F> void mustThrow(const char* key, F&& fn)
        {
            bool thrown = false; try { fn(); } catch (const Violation&) { throw; } catch (const std::exception&) { thrown = true; }
            VH_CHECK(thrown, key, "an invalid request was not refused"); ev("refused");
        }
        void step()
        {
            int k = (int)r.below(100);
            if (k < 22) { Sb s = freshSb(); int v = deliver(r, s, [&](const auto& i) { rw->SyncAddSubBlock(i); }); note("addSb(" + std::to_string(s.data.size() + s.md.size() + s.att.size()) + ")"); (void)v; int i = newSbIndex(); m.sb[i] = s; checkSb(i); ev("rw-add-subblock"); }
            else if (k < 40 && !m.sb.empty())
            {
                auto it = m.sb.begin(); std::advance(it, (long)r.below(m.sb.size())); Sb s = freshSb(&it->second);
                size_t before = it->second.data.size() + it->second.md.size() + it->second.att.size(), after = s.data.size() + s.md.size() + s.att.size();
                deliver(r, s, [&](const auto& i) { rw->ReplaceSubBlock(it->first, i); }); note("replSb(" + std::to_string(it->first) + "," + std::to_string(before) + "->" + std::to_string(after) + ")"); it->second = s; checkSb(it->first); ev(after > before ? "rw-replace-subblock-larger" : "rw-replace-subblock-smaller");
            }
            else if (k < 48 && !m.sb.empty()) { auto it = m.sb.begin(); std::advance(it, (long)r.below(m.sb.size())); int i = it->first; rw->RemoveSubBlock(i); note("rmSb(" + std::to_string(i) + ")"); m.sb.erase(it); VH_CHECK(rw->ReadSubBlock(i) == nullptr, "rw-removed", "a removed sub-block can still be read"); VH_CHECK(!rw->TryGetSubBlockInfo(i, nullptr), "rw-removed", "a removed sub-block still has information"); ev("rw-remove-subblock"); }
            else if (k < 58) { At a = randomAt(r, o.maxPayload); rw->SyncAddAttachment(attInfo(a)); note("addAt(" + std::to_string(a.data.size()) + ")"); int i = newAtIndex(); m.at[i] = a; checkAt(i); ev("rw-add-attachment"); }
            else if (k < 68 && !m.at.empty())
            {
                auto it = m.at.begin(); std::advance(it, (long)r.below(m.at.size())); At a = randomAt(r, o.maxPayload); if (r.chance(40)) { Bytes d = a.data; a = it->second; a.data = d; }
                rw->ReplaceAttachment(it->first, attInfo(a)); note("replAt(" + std::to_string(it->first) + "," + std::to_string(it->second.data.size()) + "->" + std::to_string(a.data.size()) + ")"); ev(a.data.size() > it->second.data.size() ? "rw-replace-attachment-larger" : "rw-replace-attachment-smaller"); it->second = a; checkAt(it->first);
            }
            else if (k < 73 && !m.at.empty()) { auto it = m.at.begin(); std::advance(it, (long)r.below(m.at.size())); int i = it->first; rw->RemoveAttachment(i); note("rmAt(" + std::to_string(i) + ")"); m.at.erase(it); VH_CHECK(rw->ReadAttachment(i) == nullptr, "rw-removed", "a removed attachment can still be read"); VH_CHECK(!rw->TryGetAttachmentInfo(i, nullptr), "rw-removed", "a removed attachment still has information"); ev("rw-remove-attachment"); }
            else if (k < 82) { m.xml = randomXml(r); m.mdAtt = r.chance(25) ? pattern(r, (size_t)sizeLike(r, 600)) : Bytes(); m.hasMd = true; rw->SyncWriteMetadata(mdInfo(m.xml, m.mdAtt)); note("md(" + std::to_string(m.xml.size() + m.mdAtt.size()) + ")"); ev("rw-write-metadata"); }
            else if (k < 88 && o.invalidOps)
            {
                int bad = r.pick({ -1, 100000, 1 << 30, -2147483647 });
                switch (r.below(5))
                {
                case 0: mustThrow("rw-invalid-remove", [&] { rw->RemoveSubBlock(bad); }); break;
                case 1: mustThrow("rw-invalid-remove", [&] { rw->RemoveAttachment(bad); }); break;
                case 2: mustThrow("rw-invalid-replace", [&] { rw->ReplaceSubBlock(bad, callbackInfo(r, freshSb())); }); break;
                case 3: { At a = randomAt(r, 100); mustThrow("rw-invalid-replace", [&] { rw->ReplaceAttachment(bad, attInfo(a)); }); } break;
                default:
                    for (auto& e : m.sb) if (e.second.mValid && e.second.layer0()) { Sb s = e.second; s.md = pattern(r, 10); mustThrow("rw-duplicate", [&] { rw->SyncAddSubBlock(callbackInfo(r, s)); }); break; }
                    break;
                }
                note("invalid");
                VH_CHECK(rw->ReadSubBlock(bad) == nullptr && rw->ReadAttachment(bad) == nullptr && !rw->TryGetSubBlockInfo(bad, nullptr) && !rw->TryGetAttachmentInfo(bad, nullptr), "rw-invalid-read", "index " << bad);
            }
            else if (o.checkStats) checkStatistics();
            else if (k < 94) { if (!m.sb.empty()) { auto it = m.sb.begin(); std::advance(it, (long)r.below(m.sb.size())); checkSb(it->first); } if (!m.at.empty()) { auto it = m.at.begin(); std::advance(it, (long)r.below(m.at.size())); checkAt(it->first); } }
            else checkAll();
        }
        void close() { rw->Close(); note("close"); rw.reset(); ev("rw-close"); }
    };
}
