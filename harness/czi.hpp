// An independent reader of the CZI container format (written from the format description, it shares no code with libCZI):
// parses a file into segments and directories and judges its structural well-formedness.
#pragma once
#include "vh.hpp"

namespace czi
{
    using Bytes = std::vector<uint8_t>;

    template <typename T> inline T get(const Bytes& b, uint64_t off)
    {
        if (off + sizeof(T) > b.size() || off + sizeof(T) < off) throw std::runtime_error("czi: read beyond end of file at " + std::to_string(off));
        T v; memcpy(&v, &b[(size_t)off], sizeof(T)); return v;
    }
    template <typename T> inline void put(Bytes& b, uint64_t off, T v) { if (off + sizeof(T) > b.size()) b.resize((size_t)(off + sizeof(T))); memcpy(&b[(size_t)off], &v, sizeof(T)); }

    struct Seg { uint64_t pos; std::string id; int64_t alloc, used; };
    struct DimE { std::string dim; int32_t start, size; float startCoord; int32_t stored; };
    struct SbEntry
    {
        std::string schema; int32_t pixelType = 0; int64_t filePos = 0; int32_t filePart = 0; int32_t compression = 0; uint8_t spare[6] = {}; std::vector<DimE> dims;
        bool operator==(const SbEntry& o) const
        {
            if (schema != o.schema || pixelType != o.pixelType || filePos != o.filePos || filePart != o.filePart || compression != o.compression || dims.size() != o.dims.size()) return false;
            auto a = dims, c = o.dims; auto byName = [](const DimE& x, const DimE& y) { return x.dim < y.dim; }; std::sort(a.begin(), a.end(), byName); std::sort(c.begin(), c.end(), byName); // (the order has no meaning)
            for (size_t i = 0; i < a.size(); ++i)
                if (a[i].dim != c[i].dim || a[i].start != c[i].start || a[i].size != c[i].size || a[i].stored != c[i].stored) return false;
            return true;
        }
    };
    struct AtEntry { std::string schema; int64_t filePos; int32_t filePart; Bytes guid; std::string type, name; };
    struct SbSeg { SbEntry e; int32_t mdSize, attSize; int64_t dataSize; uint64_t mdPos, dataPos, attPos; };
    struct Header { int32_t major, minor; Bytes primaryGuid, fileGuid; int32_t filePart; int64_t sbDir, md; int32_t updatePending; int64_t attDir; };

    inline std::string cstr(const Bytes& b, uint64_t off, size_t n)
    {
        std::string s; for (size_t i = 0; i < n; ++i) { char c = (char)get<uint8_t>(b, off + i); if (!c) break; s += c; } return s;
    }
    inline Bytes slice(const Bytes& b, uint64_t off, uint64_t n)
    {
        if (off + n > b.size() || off + n < off) throw std::runtime_error("czi: slice beyond end of file");
        return Bytes(b.begin() + (size_t)off, b.begin() + (size_t)(off + n));
    }
    inline Seg seg(const Bytes& b, uint64_t pos)
    {
        return Seg{ pos, cstr(b, pos, 16), get<int64_t>(b, pos + 16), get<int64_t>(b, pos + 24) };
    }
    inline Header header(const Bytes& b)
    {
        Header h; uint64_t o = 32;
        h.major = get<int32_t>(b, o); h.minor = get<int32_t>(b, o + 4); h.primaryGuid = slice(b, o + 16, 16); h.fileGuid = slice(b, o + 32, 16);
        h.filePart = get<int32_t>(b, o + 48); h.sbDir = get<int64_t>(b, o + 52); h.md = get<int64_t>(b, o + 60); h.updatePending = get<int32_t>(b, o + 68); h.attDir = get<int64_t>(b, o + 72);
        return h;
    }
    // returns the size of the entry
    inline size_t entryDV(const Bytes& b, uint64_t o, SbEntry& e)
    {
        e.schema = cstr(b, o, 2); e.pixelType = get<int32_t>(b, o + 2); e.filePos = get<int64_t>(b, o + 6); e.filePart = get<int32_t>(b, o + 14); e.compression = get<int32_t>(b, o + 18);
        for (int i = 0; i < 6; ++i) e.spare[i] = get<uint8_t>(b, o + 22 + i);
        int32_t n = get<int32_t>(b, o + 28);
        if (n < 0 || n > 64) throw std::runtime_error("czi: bad dimension count " + std::to_string(n));
        for (int i = 0; i < n; ++i)
        {
            uint64_t p = o + 32 + 20ull * i;
            e.dims.push_back(DimE{ cstr(b, p, 4), get<int32_t>(b, p + 4), get<int32_t>(b, p + 8), get<float>(b, p + 12), get<int32_t>(b, p + 16) });
        }
        return 32 + 20 * (size_t)n;
    }
    inline SbSeg subblock(const Bytes& b, uint64_t pos)
    {
        SbSeg s; uint64_t o = pos + 32;
        s.mdSize = get<int32_t>(b, o); s.attSize = get<int32_t>(b, o + 4); s.dataSize = get<int64_t>(b, o + 8);
        size_t n = entryDV(b, o + 16, s.e);
        uint64_t fixed = std::max<uint64_t>(256, 16 + n);
        s.mdPos = o + fixed; s.dataPos = s.mdPos + (uint32_t)s.mdSize; s.attPos = s.dataPos + (uint64_t)s.dataSize;
        return s;
    }
    inline std::vector<SbEntry> sbDirectory(const Bytes& b, uint64_t pos, uint64_t* bytesUsed = nullptr)
    {
        std::vector<SbEntry> v; int32_t n = get<int32_t>(b, pos + 32); uint64_t o = pos + 32 + 128;
        if (n < 0 || n > 10000000) throw std::runtime_error("czi: bad directory entry count");
        for (int i = 0; i < n; ++i) { SbEntry e; o += entryDV(b, o, e); v.push_back(e); }
        if (bytesUsed) *bytesUsed = o - (pos + 32);
        return v;
    }
    inline AtEntry atEntry(const Bytes& b, uint64_t o)
    {
        AtEntry e; e.schema = cstr(b, o, 2); e.filePos = get<int64_t>(b, o + 12); e.filePart = get<int32_t>(b, o + 20); e.guid = slice(b, o + 24, 16); e.type = cstr(b, o + 40, 8); e.name = cstr(b, o + 48, 80);
        return e;
    }
    inline std::vector<AtEntry> attDirectory(const Bytes& b, uint64_t pos)
    {
        std::vector<AtEntry> v; int32_t n = get<int32_t>(b, pos + 32);
        if (n < 0 || n > 1000000) throw std::runtime_error("czi: bad attachment count");
        for (int i = 0; i < n; ++i) v.push_back(atEntry(b, pos + 32 + 256 + 128ull * i));
        return v;
    }

    struct Summary { std::map<uint64_t, Seg> live; Header h; std::vector<SbEntry> sb; std::vector<AtEntry> at; uint64_t chainLength = 0; };

    /// Judge the structural well-formedness of a complete CZI-file; returns what was found.
    /// `writerOutput`: the file is the output of the (pure) writer, then in addition everything in it must be accounted for.
    inline Summary validate(const Bytes& b, bool writerOutput)
    {
        Summary r;
        if (b.size() < 544) vh::fail("file-header", "file has only " + std::to_string(b.size()) + " bytes");
        try
        {
            Seg fh = seg(b, 0);
            VH_EQ(fh.id, std::string("ZISRAWFILE"), "file-header", "first segment");
            VH_CHECK(fh.alloc == 512 && fh.used <= 512 && fh.used >= 80, "file-header", "size of the file-header segment alloc=" << fh.alloc << " used=" << fh.used);
            r.h = header(b); r.live[0] = fh;
            VH_EQ(r.h.major, 1, "file-header", "major version"); VH_EQ(r.h.minor, 0, "file-header", "minor version"); VH_EQ(r.h.updatePending, 0, "file-header", "UpdatePending"); VH_EQ(r.h.filePart, 0, "file-header", "FilePart");
            auto need = [&](int64_t pos, const char* id, const char* what)->Seg
            {
                if (pos <= 0 || pos % 32 != 0) vh::fail("pointer", std::string(what) + " points to " + std::to_string(pos) + ", which cannot be the start of a segment");
                Seg s = seg(b, (uint64_t)pos);
                if (s.id != id) vh::fail("pointer", std::string(what) + " points to " + std::to_string(pos) + " where a '" + s.id + "' segment starts, expected " + id);
                if (s.alloc < 0 || s.alloc % 32 != 0) vh::fail("segment-align", s.id + " at " + std::to_string(pos) + " has AllocatedSize " + std::to_string(s.alloc));
                if (s.used < 0 || s.used > s.alloc) vh::fail("segment-used", s.id + " at " + std::to_string(pos) + " UsedSize " + std::to_string(s.used) + " AllocatedSize " + std::to_string(s.alloc));
                if ((uint64_t)pos + 32 + (uint64_t)s.alloc > b.size()) vh::fail("segment-beyond-eof", s.id + " at " + std::to_string(pos) + " with AllocatedSize " + std::to_string(s.alloc) + " extends beyond the end of the file (" + std::to_string(b.size()) + ")");
                if (!r.live.emplace((uint64_t)pos, s).second) vh::fail("pointer-duplicate", std::string(what) + " refers to a segment at " + std::to_string(pos) + " which something else refers to as well");
                vh::ctx().evals += 5; vh::ev("segment-validated");
                return s;
            };
            if (r.h.sbDir != 0)
            {
                Seg s = need(r.h.sbDir, "ZISRAWDIRECTORY", "header.SubBlockDirectoryPosition");
                uint64_t used; r.sb = sbDirectory(b, s.pos, &used);
                VH_CHECK((int64_t)used <= s.used, "directory-size", "sub-block directory needs " << used << " bytes, segment has used=" << s.used << " alloc=" << s.alloc);
            }
            if (r.h.attDir != 0)
            {
                Seg s = need(r.h.attDir, "ZISRAWATTDIR", "header.AttachmentDirectoryPosition");
                r.at = attDirectory(b, s.pos);
                VH_CHECK((int64_t)(256 + 128 * r.at.size()) <= s.used, "directory-size", "attachment directory with " << r.at.size() << " entries, used=" << s.used << " alloc=" << s.alloc);
            }
            if (r.h.md != 0)
            {
                Seg s = need(r.h.md, "ZISRAWMETADATA", "header.MetadataPosition");
                int64_t xml = get<int32_t>(b, s.pos + 32), att = get<int32_t>(b, s.pos + 36);
                VH_CHECK(xml >= 0 && att >= 0 && 256 + xml + att <= s.used, "metadata-size", "metadata xml=" << xml << " att=" << att << " used=" << s.used);
            }
            for (auto& e : r.sb)
            {
                VH_EQ(e.schema, std::string("DV"), "directory-entry", "schema of a directory entry"); VH_EQ(e.filePart, 0, "directory-entry", "FilePart");
                Seg s = need(e.filePos, "ZISRAWSUBBLOCK", "a sub-block directory entry");
                SbSeg q = subblock(b, s.pos);
                VH_CHECK(q.mdSize >= 0 && q.attSize >= 0 && q.dataSize >= 0, "subblock-size", "negative size in the sub-block at " << s.pos);
                VH_CHECK(q.attPos + (uint64_t)q.attSize <= s.pos + 32 + (uint64_t)s.used, "subblock-size", "payload of the sub-block at " << s.pos << " exceeds its used size " << s.used);
                VH_CHECK(q.e == e, "directory-vs-subblock", "the directory entry and the sub-block at " << s.pos << " disagree (compression " << e.compression << "/" << q.e.compression << ", pixeltype " << e.pixelType << "/" << q.e.pixelType << ", position " << e.filePos << "/" << q.e.filePos << ", dims " << e.dims.size() << "/" << q.e.dims.size() << ")");
                VH_CHECK(q.e.spare[0] == e.spare[0], "directory-vs-subblock", "pyramid type of directory entry and sub-block disagree");
            }
            for (auto& e : r.at)
            {
                Seg s = need(e.filePos, "ZISRAWATTACH", "an attachment directory entry");
                int64_t n = get<int64_t>(b, s.pos + 32);
                VH_CHECK(n >= 0 && 256 + n <= s.used, "attachment-size", "attachment at " << s.pos << " data size " << n << " used " << s.used);
                AtEntry q = atEntry(b, s.pos + 32 + 16);
                VH_CHECK(q.schema == "A1" && q.schema == e.schema && q.guid == e.guid && q.name == e.name && q.type == e.type && q.filePos == e.filePos, "directory-vs-attachment",
                    "the directory entry and the attachment at " << s.pos << " disagree: " << e.name << "/" << q.name << " " << e.type << "/" << q.type << " pos " << e.filePos << "/" << q.filePos);
            }
            // live segments do not overlap; unused space is zero
            uint64_t prevEnd = 0; std::string prev;
            for (auto& kv : r.live)
            {
                const Seg& s = kv.second;
                VH_CHECK(s.pos >= prevEnd, "segment-overlap", s.id << " at " << s.pos << " overlaps " << prev << " which ends at " << prevEnd);
                prevEnd = s.pos + 32 + (uint64_t)s.alloc; prev = s.id + " at " + std::to_string(s.pos);
                for (uint64_t i = s.pos + 32 + (uint64_t)s.used; i < prevEnd; ++i) if (b[(size_t)i]) vh::fail("segment-padding", s.id + " at " + std::to_string(s.pos) + ": unused byte at offset " + std::to_string(i - s.pos) + " is not zero");
            }
            // the chain of segments reaches every live segment
            static const std::set<std::string> ids = { "ZISRAWFILE","ZISRAWDIRECTORY","ZISRAWSUBBLOCK","ZISRAWMETADATA","ZISRAWATTACH","ZISRAWATTDIR","DELETED" };
            uint64_t pos = 0; size_t reached = 0; std::string last;
            while (pos < b.size())
            {
                if (!writerOutput && reached == r.live.size()) break;
                Seg s = seg(b, pos);
                if (!ids.count(s.id)) vh::fail("segment-chain", "no valid segment at " + std::to_string(pos) + " (the chain is broken) after " + last);
                if (s.alloc < 0 || s.alloc % 32 != 0) vh::fail("segment-align", s.id + " at " + std::to_string(pos) + " has AllocatedSize " + std::to_string(s.alloc));
                if (r.live.count(pos)) ++reached;
                else if (writerOutput && s.id != "DELETED") vh::fail("unreferenced", "the segment " + s.id + " at " + std::to_string(pos) + " is not referenced by header or directories");
                last = s.id + " at " + std::to_string(pos); pos += 32 + (uint64_t)s.alloc; ++r.chainLength;
            }
            VH_EQ(reached, r.live.size(), "segment-chain", "live segments reached by walking the chain");
        }
        catch (const std::runtime_error& e) { vh::fail("truncated", e.what()); }
        return r;
    }
}
