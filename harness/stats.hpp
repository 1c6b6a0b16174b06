// The statistics of a set of sub-blocks, by definition.
#pragma once
#include "doc.hpp"
#include <cmath>

namespace stats
{
    using namespace doc;
    struct Box { bool valid = false; int64_t x0 = 0, y0 = 0, x1 = 0, y1 = 0; void add(const Sb& s) { if (!valid) { valid = true; x0 = s.x; y0 = s.y; x1 = (int64_t)s.x + s.w; y1 = (int64_t)s.y + s.h; } else { x0 = std::min<int64_t>(x0, s.x); y0 = std::min<int64_t>(y0, s.y); x1 = std::max<int64_t>(x1, (int64_t)s.x + s.w); y1 = std::max<int64_t>(y1, (int64_t)s.y + s.h); } } };
    inline void checkBox(const Box& b, const libCZI::IntRect& r, const std::string& what)
    {
        if (!b.valid) { VH_CHECK(!r.IsValid(), "stat-bounding-box", what << ": expected no box, got " << r.x << "," << r.y << "," << r.w << "," << r.h); return; }
        const bool fitsX = b.x1 - b.x0 <= 2147483647, fitsY = b.y1 - b.y0 <= 2147483647; if (!fitsX || !fitsY) vh::ev("box-exceeds-int"); // an extent which is not representable is not judged
        VH_CHECK(r.x == b.x0 && r.y == b.y0 && (!fitsX || r.w == b.x1 - b.x0) && (!fitsY || r.h == b.y1 - b.y0), "stat-bounding-box", what << ": got " << r.x << "," << r.y << "," << r.w << "," << r.h << " expected " << b.x0 << "," << b.y0 << "," << b.x1 - b.x0 << "," << b.y1 - b.y0);
    }
    // (minification factor, layer number); returns false where the definition is not unambiguous
    inline bool layerOf(const Sb& s, std::pair<int, int>& out)
    {
        if (s.layer0()) { out = { 0, 0 }; return true; }
        if (s.pw <= 0 || s.ph <= 0) return false;
        double f = s.pw > s.ph ? (double)s.w / s.pw : (double)s.h / s.ph;
        static const struct { double v, tol; int f, l; } t[] = {
            {2,.1,2,1},{4,.2,2,2},{8,.4,2,3},{16,.8,2,4},{32,1,2,5},{64,1,2,6},{128,1,2,7},{256,2,2,8},{512,4,2,9},{1024,10,2,10},
            {3,.1,3,1},{9,.2,3,2},{27,.8,3,3},{81,1.5,3,4},{243,2,3,5},{729,5,3,6},{2187,15,3,7} };
        for (auto& e : t)
        {
            if (std::fabs(f - e.v) < e.tol * 0.9) { out = { e.f, e.l }; return true; }
            if (std::fabs(f - e.v) < e.tol * 1.1) return false;
        }
        out = { 0xff, 0xff };
        return true;
    }
    inline void checkStatistics(const std::vector<Sb>& v, const libCZI::SubBlockStatistics& st, const std::string& who)
    {
        VH_EQ(st.subBlockCount, (int)v.size(), "stat-count", who);
        Box all, l0; std::map<int, std::pair<Box, Box>> scenes; std::map<int, std::pair<int, int>> dims; bool m = false; int mMin = 0, mMax = 0;
        for (auto& s : v)
        {
            all.add(s); if (s.layer0()) l0.add(s);
            if (s.has(DimensionIndex::S)) { auto& b = scenes[s.at(DimensionIndex::S)]; b.first.add(s); if (s.layer0()) b.second.add(s); }
            for (auto& c : s.coord) { auto it = dims.find(c.first); if (it == dims.end()) dims[c.first] = { c.second, c.second }; else { it->second.first = std::min(it->second.first, c.second); it->second.second = std::max(it->second.second, c.second); } }
            if (s.mValid) { if (!m) { m = true; mMin = mMax = s.m; } else { mMin = std::min(mMin, s.m); mMax = std::max(mMax, s.m); } }
        }
        checkBox(all, st.boundingBox, who + ": bounding box"); checkBox(l0, st.boundingBoxLayer0Only, who + ": layer-0 bounding box");
        VH_EQ(st.IsMIndexValid(), m, "stat-mindex", who); if (m) { VH_EQ(st.minMindex, mMin, "stat-mindex", who << " min"); VH_EQ(st.maxMindex, mMax, "stat-mindex", who << " max"); }
        for (int d = 1; d <= 9; ++d)
        {
            int a = -77, n = -77; bool b = st.dimBounds.TryGetInterval((DimensionIndex)d, &a, &n); auto it = dims.find(d);
            VH_EQ(b, it != dims.end(), "stat-dimbounds", who << ": dimension " << kDims[d]);
            if (b) { VH_EQ(a, it->second.first, "stat-dimbounds", who << ": start of " << kDims[d]); VH_EQ((int64_t)n, (int64_t)it->second.second - it->second.first + 1, "stat-dimbounds", who << ": size of " << kDims[d]); }
        }
        VH_EQ(st.sceneBoundingBoxes.size(), scenes.size(), "stat-scenes", who << ": number of scenes");
        for (auto& s : scenes)
        {
            auto it = st.sceneBoundingBoxes.find(s.first); VH_CHECK(it != st.sceneBoundingBoxes.end(), "stat-scenes", who << ": scene " << s.first << " is missing");
            checkBox(s.second.first, it->second.boundingBox, who + ": bounding box of a scene"); checkBox(s.second.second, it->second.boundingBoxLayer0, who + ": layer-0 bounding box of a scene");
        }
    }
    inline void checkPyramid(const std::vector<Sb>& v, const libCZI::PyramidStatistics& ps, const std::string& who)
    {
        std::map<int, std::map<std::pair<int, int>, int>> e; bool ambiguous = false;
        for (auto& s : v)
        {
            std::pair<int, int> l; if (!layerOf(s, l)) { ambiguous = true; break; }
            int scene = s.has(DimensionIndex::S) ? s.at(DimensionIndex::S) : (std::numeric_limits<int>::max)();
            e[scene][l]++;
        }
        if (ambiguous) { vh::ev("stat-pyramid-skipped"); return; }
        VH_EQ(ps.scenePyramidStatistics.size(), e.size(), "stat-pyramid", who << ": number of scenes");
        for (auto& s : ps.scenePyramidStatistics)
        {
            auto it = e.find(s.first); VH_CHECK(it != e.end(), "stat-pyramid", who << ": unexpected scene " << s.first);
            std::map<std::pair<int, int>, int> g; std::pair<int, int> prev{ -1,-1 };
            for (auto& l : s.second)
            {
                std::pair<int, int> k{ l.layerInfo.minificationFactor, l.layerInfo.pyramidLayerNo };
                VH_CHECK(g.emplace(k, l.count).second, "stat-pyramid", who << ": layer " << k.first << "/" << k.second << " is listed twice");
                VH_CHECK(l.layerInfo.IsLayer0() == (k == std::make_pair(0, 0)), "stat-pyramid", "IsLayer0");
                // sorted by the minification (layer 0 first, "not identified" last)
                auto scale = [](const std::pair<int, int>& q) { return q == std::make_pair(0, 0) ? 0. : q.first == 0xff ? 1e300 : std::pow((double)q.first, q.second); };
                VH_CHECK(prev.first < 0 || scale(k) > scale(prev), "stat-pyramid-order", who << ": layers are not sorted");
                prev = k;
            }
            if (g != it->second) { std::ostringstream o; for (auto& x : g) o << " got(" << x.first.first << "," << x.first.second << ")=" << x.second; for (auto& x : it->second) o << " exp(" << x.first.first << "," << x.first.second << ")=" << x.second; vh::fail("stat-pyramid", who + ": layer counts of scene " + std::to_string(s.first) + o.str()); }
        }
        vh::ev("stat-pyramid-compared"); vh::ctx().evals += ps.scenePyramidStatistics.size();
    }
    inline void check(const std::vector<Sb>& v, const libCZI::SubBlockStatistics& st, const libCZI::PyramidStatistics& ps, bool, const std::string& who)
    {
        checkStatistics(v, st, who); checkPyramid(v, ps, who);
    }
}
