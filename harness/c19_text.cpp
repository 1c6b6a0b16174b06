// C19: text forms of coordinates, bounds, index sets, compression options, UTF-8; coordinate/bounds objects as maps.
#include "doc.hpp"
#include <cwctype>
#include <climits>
using namespace vh; using namespace libCZI;
typedef std::map<int, int> CMap; typedef std::map<int, std::pair<int, int>> BMap;
static const char DimChars[] = "?ZCTRSIHVB";
static int value(Rng& r) { switch (r.below(6)) { case 0: return r.pick({ INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1, -1000000000, 1000000000, -999999999, 0 }); case 1: return (int)r.next(); default: return r.range(-30, 30); } }
static CMap coordMap(const IDimCoordinate* c) { CMap m; for (int i = 1; i <= 9; ++i) { int v = 0; if (c->TryGetPosition((DimensionIndex)i, &v)) m[i] = v; } return m; }
static BMap boundsMap(const IDimBounds* c) { BMap m; for (int i = 1; i <= 9; ++i) { int v = 0, s = 0; if (c->TryGetInterval((DimensionIndex)i, &v, &s)) m[i] = { v, s }; } return m; }
static std::string show(const CMap& m) { std::ostringstream o; for (auto& e : m) o << DimChars[e.first] << e.second; return o.str(); }
static std::string show(const BMap& m) { std::ostringstream o; for (auto& e : m) o << DimChars[e.first] << e.second.first << ":" << e.second.second; return o.str(); }
static CDimCoordinate make(const CMap& m) { CDimCoordinate c; for (auto& e : m) c.Set((DimensionIndex)e.first, e.second); return c; }
static CMap randomC(Rng& r) { CMap m; int n = r.range(0, 9); for (int i = 0; i < n; ++i) m[r.range(1, 9)] = value(r); return m; }
static BMap randomB(Rng& r) { BMap m; int n = r.range(1, 9); for (int i = 0; i < n; ++i) { int s = r.chance(80) ? r.range(1, 20) : r.pick({ INT_MAX, 1, 1000000000, 12345678 }); m[r.range(1, 9)] = { value(r), s }; } return m; }

// ---- coordinate grammar: lenient reference parser ------------------------------------------------------------------------
// judge: 1 valid by the documented grammar, 0 must be refused, -1 not judged (only a deviation in blanks)
static std::string printable(const std::string& s) { std::string o; for (char c : s) if (c >= 32 && c < 127) o += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); o += b; } return o; }
static int refCoord(const std::string& s, CMap& out, bool& dup)
{
    size_t i = 0; bool odd = false; dup = false; out.clear(); auto blank = [&](char c) { return c == ' ' || c == '\t'; }; auto sep = [&](char c) { return blank(c) || c == ',' || c == ';'; };
    bool first = true;
    while (i < s.size())
    {
        size_t b = i; while (i < s.size() && sep(s[i])) { if (first && !blank(s[i])) odd = true; ++i; } (void)b;
        if (i == s.size()) { if (first) odd = true; break; }
        const char* p = strchr(DimChars + 1, toupper((unsigned char)s[i])); if (!p || !*p || (unsigned char)s[i] > 127) return 0; int d = (int)(p - DimChars); ++i;
        while (i < s.size() && blank(s[i])) { odd = true; ++i; }
        bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; while (i < s.size() && blank(s[i])) { odd = true; ++i; } }
        size_t n = 0; long long v = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (v < 100000000000ll) v = v * 10 + (s[i] - '0'); ++i; ++n; }
        if (!n) return 0; if (neg) v = -v; if (v > INT_MAX || v < INT_MIN) return 0;
        if (out.count(d)) { dup = true; return 0; } out[d] = (int)v; first = false;
    }
    return odd ? -1 : 1;
}
static int refBounds(const std::string& s, BMap& out)
{
    size_t i = 0; bool odd = false; out.clear(); auto blank = [&](char c) { return isspace((unsigned char)c) != 0; };
    while (i < s.size() && blank(s[i])) { ++i; odd = true; } if (i == s.size()) return -1;
    while (i < s.size())
    {
        const char* p = strchr(DimChars + 1, toupper((unsigned char)s[i])); if (!p || !*p || (unsigned char)s[i] > 127) return 0; int d = (int)(p - DimChars); ++i; long long v[2];
        for (int k = 0; k < 2; ++k)
        {
            if (k) { if (i >= s.size() || s[i] != ':') return 0; ++i; }
            bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; if (k) odd = true; }
            size_t n = 0; v[k] = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (v[k] < 100000000000ll) v[k] = v[k] * 10 + (s[i] - '0'); ++i; ++n; } if (!n) return 0; if (neg) v[k] = -v[k]; if (v[k] > INT_MAX || v[k] < INT_MIN) return 0;
        }
        if (v[1] == 0) return 0; if (out.count(d)) return 0; out[d] = { (int)v[0], (int)v[1] }; while (i < s.size() && blank(s[i])) { ++i; odd = true; }
    }
    return odd ? -1 : 1;
}
static std::string number(Rng& r, long long v, bool plus) { std::string s = std::to_string(std::llabs(v)); if (r.chance(15)) s = std::string((size_t)r.range(1, 4), '0') + s; return (v < 0 ? "-" : plus && r.chance(20) ? "+" : "") + s; }
static std::string mutate(Rng& r, std::string s, const char* alphabet)
{
    int n = r.range(1, 3); for (int k = 0; k < n; ++k) { char c = r.chance(80) ? alphabet[r.below(strlen(alphabet))] : (char)r.range(1, 255); size_t p = r.below(s.size() + 1); switch (r.below(4)) { case 0: s.insert(p, 1, c); break; case 1: if (p < s.size()) s[p] = c; break; case 2: if (p < s.size()) s.erase(p, 1); break; default: s = s.substr(0, p); break; } } return s;
}
static void coordinateText(Rng& r)
{
    CMap m = randomC(r); CDimCoordinate c = make(m); std::string t = Utils::DimCoordinateToString(&c); VH_EQ(t, show(m), "coordinate-format", "text of a coordinate"); ctx().currentDesc = "coordinate " + t;
    CDimCoordinate b = CDimCoordinate::Parse(t.c_str()); VH_CHECK(coordMap(&b) == m, "coordinate-roundtrip", t << " -> " << show(coordMap(&b))); ev("coordinate-roundtrip");
    // any text of the grammar, and mutations of it
    std::string s; std::vector<int> dims; for (auto& e : m) dims.push_back(e.first); r.shuffle(dims); if (r.chance(5) && !dims.empty()) dims.push_back(r.pick(dims));
    if (r.chance(20)) s += std::string((size_t)r.range(1, 3), r.chance(70) ? ' ' : '\t');
    for (int d : dims) { char ch = DimChars[d]; s += r.chance(30) ? (char)tolower(ch) : ch; s += number(r, r.chance(4) ? r.pick({ 2147483648ll, -2147483649ll, 99999999999ll, 4294967296ll, 123456789012345678ll }) : m[d], true); if (r.chance(40)) { int n = r.range(1, 3); while (n--) s += r.pick({ ' ', ',', ';' }); } }
    if (r.chance(50)) s = mutate(r, s, "ZCTRSIHVBzctM0123456789+-,; \t:|x.");
    CMap e; bool dup; int j = refCoord(s, e, dup); ctx().currentDesc = "coordinate text \"" + printable(s) + "\""; ctx().seen(s);
    bool ok = true; CDimCoordinate g; bool wasDup = false; try { g = CDimCoordinate::Parse(s.c_str()); } catch (const LibCZIStringParseException& x) { ok = false; wasDup = x.GetErrorType() == LibCZIStringParseException::ErrorType::DuplicateDimension; VH_CHECK(x.GetNumberOfCharsParsedOk() <= (int)s.size(), "parse-position", ctx().currentDesc << ": position " << x.GetNumberOfCharsParsedOk()); }
    if (j == 1) VH_CHECK(ok, "coordinate-refused", ctx().currentDesc << " is refused"); if (j == 0) VH_CHECK(!ok, "coordinate-accepted", ctx().currentDesc << " is accepted as " << show(coordMap(&g)));
    if (ok) VH_CHECK(coordMap(&g) == e, "coordinate-parse", ctx().currentDesc << " is parsed as " << show(coordMap(&g)) << " expected " << show(e));
    if (!ok && dup) VH_CHECK(wasDup, "duplicate-not-named", ctx().currentDesc);
    ev(j == 1 ? "coordinate-valid-text" : j == 0 ? "coordinate-invalid-text" : "coordinate-unjudged");
    // StringToDimCoordinate: same decision, and the target is unchanged if it fails
    CMap o = randomC(r); CDimCoordinate target = make(o); bool ok2 = r.chance(10) ? Utils::StringToDimCoordinate(s.c_str(), nullptr) : (Utils::StringToDimCoordinate(s.c_str(), &target)); VH_EQ(ok2, ok, "coordinate-two-parsers", ctx().currentDesc); if (!ok) VH_CHECK(coordMap(&target) == o, "target-altered", ctx().currentDesc); 
}
static void boundsText(Rng& r)
{
    BMap m = randomB(r); CDimBounds c; for (auto& e : m) c.Set((DimensionIndex)e.first, e.second.first, e.second.second); std::string t = Utils::DimBoundsToString(&c); VH_EQ(t, show(m), "bounds-format", "text of bounds"); ctx().currentDesc = "bounds " + t;
    CDimBounds b = CDimBounds::Parse(t.c_str()); VH_CHECK(boundsMap(&b) == m, "bounds-roundtrip", t << " -> " << show(boundsMap(&b))); ev("bounds-roundtrip");
    std::string s; std::vector<int> dims; for (auto& e : m) dims.push_back(e.first); r.shuffle(dims); if (r.chance(5)) dims.push_back(r.pick(dims));
    for (int d : dims) { char ch = DimChars[d]; s += r.chance(30) ? (char)tolower(ch) : ch; s += number(r, r.chance(3) ? 2147483648ll : m[d].first, true) + ":" + number(r, r.chance(3) ? r.pick({ 0ll, 2147483648ll, 99999999999ll }) : m[d].second, false); if (r.chance(20)) s += " "; }
    if (r.chance(50)) s = mutate(r, s, "ZCTRSIHVBzctM0123456789+-,; \t:|x.");
    BMap e; int j = refBounds(s, e); ctx().currentDesc = "bounds text \"" + printable(s) + "\""; ctx().seen(s); bool ok = true; CDimBounds g; try { g = CDimBounds::Parse(s.c_str()); } catch (const LibCZIStringParseException&) { ok = false; }
    if (j == 1) VH_CHECK(ok, "bounds-refused", ctx().currentDesc << " is refused"); if (j == 0) VH_CHECK(!ok, "bounds-accepted", ctx().currentDesc << " is accepted as " << show(boundsMap(&g)));
    if (ok && j != 0) VH_CHECK(boundsMap(&g) == e, "bounds-parse", ctx().currentDesc << " is parsed as " << show(boundsMap(&g)));
    ev(j == 1 ? "bounds-valid-text" : j == 0 ? "bounds-invalid-text" : "bounds-unjudged");
}
// ---- index sets ----------------------------------------------------------------------------------------------------------------
struct Iv { long long a, b; };
/// reference for one item without blanks: [sign](digits|inf) [ '-' [sign](digits|inf) ]
static bool refNum(const std::string& s, size_t& i, long long& v)
{
    bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-'; if (s.compare(i, 3, "inf") == 0) { i += 3; v = neg ? INT_MIN : INT_MAX; return true; }
    size_t n = 0; v = 0; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (v < 100000000000ll) v = v * 10 + (s[i] - '0'); ++i; ++n; } if (neg) v = -v; return n > 0 && v <= INT_MAX && v >= INT_MIN;
}
static int refSet(const std::string& s, std::vector<Iv>& out, bool& order)
{
    order = false; out.clear(); bool odd = false; std::vector<std::string> items; std::string cur; for (char c : s + ",") if (c == ',') { items.push_back(cur); cur.clear(); } else cur += c; bool bad = false;
    for (auto& it : items)
    {
        std::string q; bool inner = false; size_t a = it.find_first_not_of(" \t"), b = it.find_last_not_of(" \t"); if (a == std::string::npos) { odd = true; continue; }
        for (size_t i = a; i <= b; ++i) if (isspace((unsigned char)it[i])) { inner = true; if (i > a && i < b && isdigit((unsigned char)it[i - 1])) { size_t k = i; while (k <= b && isspace((unsigned char)it[k])) ++k; if (k <= b && isdigit((unsigned char)it[k])) bad = true; } } else q += it[i];
        if (inner) odd = true; size_t i = 0; Iv v; if (!refNum(q, i, v.a)) { bad = true; continue; } v.b = v.a; if (i < q.size()) { if (q[i] != '-') { bad = true; continue; } ++i; if (!refNum(q, i, v.b) || i != q.size()) { bad = true; continue; } }
        if (v.a > v.b) { order = true; bad = true; } out.push_back(v);
    }
    return bad ? 0 : odd ? -1 : 1;
}
static void indexSet(Rng& r)
{
    std::string s; int n = r.range(1, 6);
    auto num = [&](bool first) -> std::string { if (r.chance(8)) return first ? "-inf" : "inf"; if (r.chance(3)) return r.pick({ "+inf", "inf", "-inf" }); long long v = r.chance(3) ? r.pick({ 2147483648ll, -2147483649ll, 9223372036854775807ll }) : r.chance(10) ? value(r) : r.range(-30, 30); return number(r, v, true); };
    for (int i = 0; i < n; ++i) { if (i) s += ","; if (r.chance(15)) s += " "; if (r.chance(40)) { s += num(true); } else { int a = r.range(-30, 30), b = r.chance(90) ? a + r.range(0, 20) : r.range(-30, 30); s += (r.chance(85) ? number(r, a, true) : num(true)) + "-" + (r.chance(85) ? number(r, b, true) : num(false)); } if (r.chance(15)) s += " "; }
    if (r.chance(40)) s = mutate(r, s, "0123456789+-, \tinf:;x."); for (auto& c : s) if ((unsigned char)c > 127) c = 'x';
    std::vector<Iv> iv; bool order; int j = refSet(s, iv, order); ctx().currentDesc = "index set \"" + printable(s) + "\""; ctx().seen(s); std::wstring w(s.begin(), s.end()); std::shared_ptr<IIndexSet> g;
    try { g = Utils::IndexSetFromString(w); } catch (const LibCZIStringParseException&) {}
    if (j == 1) VH_CHECK(g, "index-set-refused", ctx().currentDesc << " is refused"); if (j == 0) VH_CHECK(!g, "index-set-accepted", ctx().currentDesc << " is accepted");
    ev(j == 1 ? "index-set-valid" : j == 0 ? "index-set-invalid" : "index-set-unjudged"); if (!g) return;
    std::vector<int> probe; for (int k = -32; k <= 60; ++k) probe.push_back(k); for (auto& v : iv) for (long long q : { v.a, v.a - 1, v.a + 1, v.b, v.b - 1, v.b + 1 }) if (q >= INT_MIN && q <= INT_MAX) probe.push_back((int)q); probe.push_back(INT_MIN); probe.push_back(INT_MAX); for (int k = 0; k < 5; ++k) probe.push_back((int)r.next());
    for (int p : probe) { bool e = false; for (auto& v : iv) if (p >= v.a && p <= v.b) e = true; VH_CHECK(g->IsContained(p) == e, "membership", ctx().currentDesc << ": " << p << " is " << (e ? "not " : "") << "reported as contained"); }
}
// ---- compression options -----------------------------------------------------------------------------------------------------------
static std::string mixCase(Rng& r, const std::string& s) { std::string o; int k = (int)r.below(3); for (char c : s) o += k == 0 ? c : k == 1 ? (char)toupper(c) : r.chance(50) ? (char)toupper(c) : (char)tolower(c); return o; }
static void compressionOptions(Rng& r)
{
    static const CompressionMode modes[] = { CompressionMode::UnCompressed, CompressionMode::Jpg, CompressionMode::JpgXr, CompressionMode::Zstd0, CompressionMode::Zstd1 }; CompressionMode m = modes[r.below(5)]; auto sp = [&]() { return std::string(r.chance(15) ? (size_t)r.range(1, 2) : 0, ' '); };
    std::string s = sp() + mixCase(r, Utils::CompressionModeToInformalString(m)) + sp() + ":"; bool level = false, pre = false, bad = false; int lv = 0; int n = r.range(0, 4);
    for (int i = 0; i < n; ++i)
    {
        if (i) s += ";"; s += sp();
        switch (r.below(5))
        {
        case 0: case 1: { lv = r.chance(20) ? value(r) : r.range(-50, 30); level = true; s += mixCase(r, "ExplicitLevel") + sp() + "=" + sp() + number(r, lv, true); break; }
        case 2: pre = true; s += mixCase(r, "PreProcess") + sp() + "=" + sp() + mixCase(r, "HiLoByteUnpack"); break;
        case 3: s += r.pick({ std::string("Abc=12"), std::string("Level=x"), std::string("PreProcess2=HiLoByteUnpack"), std::string("ExplicitLevel1=7"), std::string("PreProcess=Other") }); break;
        default: if (r.chance(30)) { bad = true; s += r.pick({ std::string("ExplicitLevel=5x"), std::string("ExplicitLevel=abc"), std::string("ExplicitLevel=99999999999"), std::string("ExplicitLevel=2.5"), std::string("ExplicitLevel="), std::string("ExplicitLevel=--2"), std::string("ExplicitLevel"), std::string("a=b=c"), std::string("Key=a b"), std::string("Key$=3"), std::string("ExplicitLevel=-"), std::string("ExplicitLevel=3:4") }); } else s += "Foo=bar"; break;
        }
        s += sp();
    }
    if (r.chance(8)) { bad = true; switch (r.below(5)) { case 0: s = "zstd2:ExplicitLevel=2"; break; case 1: s = s.substr(0, s.find(':')); break; case 2: s = "zstd 1:"; break; case 3: s = ":" + s; break; default: s = ""; break; } }
    ctx().currentDesc = "options \"" + s + "\""; ctx().seen(s);
    Utils::CompressionOption o; bool ok = true; try { o = Utils::ParseCompressionOptions(s); } catch (const std::logic_error&) { ok = false; }
    if (bad) { VH_CHECK(!ok, "options-accepted", ctx().currentDesc); ev("options-invalid"); return; }
    VH_CHECK(ok, "options-refused", ctx().currentDesc); VH_CHECK(o.first == m && o.second, "options-method", ctx().currentDesc << " method " << (int)o.first);
    CompressParameter p; bool g = o.second->TryGetProperty(CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL, &p); VH_EQ(g, level, "options-level", ctx().currentDesc); if (g) VH_EQ(p.GetInt32(), lv, "options-level", ctx().currentDesc);
    CompressParameter q; g = o.second->TryGetProperty(CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING, &q); VH_EQ(g && q.GetBoolean(), pre, "options-preprocess", ctx().currentDesc); ev("options-valid");
}
// ---- objects as maps ---------------------------------------------------------------------------------------------------------------------
static void objects(Rng& r)
{
    CMap m; CDimCoordinate c; BMap bm; CDimBounds b; int n = r.range(5, 40); ctx().currentDesc = "coordinate and bounds as maps";
    if (r.chance(30)) { m = randomC(r); c = make(m); CDimCoordinate k(&c); c = k; }
    for (int i = 0; i < n; ++i)
    {
        auto d = (DimensionIndex)r.range(1, 9); int di = (int)d;
        switch (r.below(9))
        {
        case 0: case 1: { int v = value(r); c.Set(d, v); m[di] = v; break; }
        case 2: c.Clear(d); m.erase(di); break;
        case 3: if (r.chance(10)) { c.Clear(); m.clear(); } break;
        case 4: case 5: { int v = value(r), s = r.range(0, 30); b.Set(d, v, s); bm[di] = { v, s }; break; }
        case 6: b.Clear(d); bm.erase(di); break;
        case 7: if (r.chance(10)) { b.Clear(); bm.clear(); } break;
        default: if (r.chance(50)) { CDimCoordinate t(&c); c = t; CDimBounds u(&b); b = u; } break;
        }
        VH_CHECK(coordMap(&c) == m, "coordinate-map", show(coordMap(&c)) << " expected " << show(m)); VH_CHECK(boundsMap(&b) == bm, "bounds-map", show(boundsMap(&b)) << " expected " << show(bm));
        VH_EQ(c.GetNumberOfValidDimensions(), (int)m.size(), "coordinate-map", "count"); VH_EQ(c.GetValidDimensionsCount(), (int)m.size(), "coordinate-map", "count"); VH_EQ(b.IsEmpty(), bm.empty(), "bounds-map", "empty"); VH_EQ(c.IsValid(d), m.count(di) != 0, "coordinate-map", "valid"); VH_EQ(b.IsValid(d), bm.count(di) != 0, "bounds-map", "valid");
        CMap e; int stop = r.range(1, 12), seen = 0; c.EnumValidDimensions([&](DimensionIndex x, int v) { VH_CHECK(e.emplace((int)x, v).second, "enumerated-twice", "coordinate"); return ++seen < stop; }); VH_EQ((int)e.size(), std::min<int>(stop, (int)m.size()), "coordinate-enum", "number of dimensions enumerated"); for (auto& q : e) VH_CHECK(m.count(q.first) && m[q.first] == q.second, "coordinate-enum", "value");
        BMap f; b.EnumValidDimensions([&](DimensionIndex x, int v, int s) { f[(int)x] = { v, s }; return true; }); VH_CHECK(f == bm, "bounds-enum", "enumerated bounds");
    }
    ctx().seen(show(m) + show(bm)); ev("object-histories");
}
static int refCompare(const CMap& a, const CMap& b) { for (int i = 1; i <= 9; ++i) { bool x = a.count(i), y = b.count(i); if (x != y) return x ? 1 : -1; if (x && a.at(i) != b.at(i)) return a.at(i) > b.at(i) ? 1 : -1; } return 0; }
static void compare(Rng& r)
{
    CMap a = randomC(r), b = r.chance(50) ? randomC(r) : a; if (r.chance(50) && !b.empty()) { auto it = b.begin(); std::advance(it, r.below(b.size())); if (r.chance(50)) it->second = value(r); else b.erase(it); }
    CDimCoordinate x = make(a), y = make(b); ctx().currentDesc = "compare " + show(a) + " " + show(b); auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
    VH_EQ(sg(Utils::Compare(&x, &y)), refCompare(a, b), "compare", ctx().currentDesc); VH_EQ(sg(Utils::Compare(&y, &x)), -refCompare(a, b), "compare", ctx().currentDesc);
    bool same = a.size() == b.size(); for (auto& e : a) same = same && b.count(e.first); VH_EQ(Utils::HasSameDimensions(&x, &y), same, "same-dimensions", ctx().currentDesc); ctx().seen(ctx().currentDesc); ev("compared");
}
static void enumerate(Rng& r)
{
    BMap m; int n = r.range(0, 4); for (int i = 0; i < n; ++i) { int st = r.range(-10, 10); if (r.chance(10)) st = r.pick({ INT_MAX - 3, INT_MIN, INT_MAX - 5 }); int sz = r.range(1, 4); m[r.range(1, 9)] = std::make_pair(st, sz); } bool none = m.empty(); if (r.chance(5) && !m.empty()) { m.begin()->second.second = 0; none = true; }
    CDimBounds b; for (auto& e : m) b.Set((DimensionIndex)e.first, e.second.first, e.second.second); uint64_t total = none ? 0 : 1; for (auto& e : m) total *= (uint64_t)e.second.second; ctx().currentDesc = "enumerate " + show(m);
    uint64_t stop = r.chance(30) && total ? 1 + r.below(total + 2) : UINT64_MAX, cnt = 0; std::set<CMap> seen;
    bool done = Utils::EnumAllCoordinates(b, [&](uint64_t no, const CDimCoordinate& c) { VH_EQ(no, cnt, "enumeration-counter", ctx().currentDesc); ++cnt; CMap k = coordMap(&c); bool in = k.size() == m.size(); for (auto& e : k) in = in && m.count(e.first) && e.second >= m[e.first].first && (long long)e.second < (long long)m[e.first].first + m[e.first].second; VH_CHECK(in, "enumeration-outside", ctx().currentDesc << ": " << show(k)); VH_CHECK(seen.insert(k).second, "enumerated-twice", ctx().currentDesc << ": " << show(k)); return cnt != stop; });
    bool cancelled = stop <= total; VH_EQ(done, !cancelled, "enumeration-result", ctx().currentDesc); VH_EQ(cnt, cancelled ? stop : total, "enumeration-count", ctx().currentDesc); ctx().seen(ctx().currentDesc); ev(cancelled ? "enumeration-cancelled" : "enumerated");
}
static void misc(Rng& r)
{
    for (int i = -1; i < 256; ++i) { char c = (char)i; const char* p = i > 0 && i < 128 ? strchr(DimChars + 1, toupper(i)) : nullptr; DimensionIndex e = p && *p ? (DimensionIndex)(p - DimChars) : DimensionIndex::invalid; VH_CHECK(Utils::CharToDimension(c) == e, "char-to-dimension", "character " << i); }
    for (int i = 1; i <= 9; ++i) VH_EQ(Utils::DimensionToChar((DimensionIndex)i), DimChars[i], "dimension-to-char", i);
    for (auto m : { CompressionMode::UnCompressed, CompressionMode::Jpg, CompressionMode::JpgXr, CompressionMode::Zstd0, CompressionMode::Zstd1 }) VH_CHECK(Utils::CompressionModeFromRawCompressionIdentifier(Utils::CompressionModeToCompressionIdentifier(m)) == m, "compression-identifier", (int)m);
    GUID a = doc::randomGuid(r), b = a; VH_CHECK(a == b && !(a != b), "guid-equal", "equal"); ((uint8_t*)&b)[r.below(16)] ^= (uint8_t)(1 << r.below(8)); VH_CHECK(!(a == b) && a != b, "guid-equal", "different");
    std::wstring w; std::string e; int n = r.range(0, 20);
    for (int i = 0; i < n; ++i)
    {
        uint32_t c; switch (r.below(5)) { case 0: c = (uint32_t)r.range(1, 127); break; case 1: c = (uint32_t)r.range(0x80, 0x7ff); break; case 2: c = (uint32_t)r.range(0x800, 0xd7ff); break; case 3: c = (uint32_t)r.range(0xe000, 0xffff); break; default: c = (uint32_t)r.range(0x10000, 0x10ffff); break; }
        w += (wchar_t)c; if (c < 0x80) e += (char)c; else if (c < 0x800) { e += (char)(0xc0 | c >> 6); e += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { e += (char)(0xe0 | c >> 12); e += (char)(0x80 | (c >> 6 & 63)); e += (char)(0x80 | (c & 63)); } else { e += (char)(0xf0 | c >> 18); e += (char)(0x80 | (c >> 12 & 63)); e += (char)(0x80 | (c >> 6 & 63)); e += (char)(0x80 | (c & 63)); }
    }
    ctx().currentDesc = "utf8 \"" + printable(e) + "\""; VH_CHECK(Utils::ConvertToUtf8(w) == e, "utf8", ctx().currentDesc << " gives " << printable(Utils::ConvertToUtf8(w))); ctx().seen(e); ev("utf8");
}
static void oneCase(Rng& r, uint64_t)
{
    switch (r.below(12)) { case 0: case 1: case 2: coordinateText(r); break; case 3: case 4: boundsText(r); break; case 5: case 6: indexSet(r); break; case 7: compressionOptions(r); break; case 8: objects(r); break; case 9: compare(r); break; case 10: enumerate(r); break; default: misc(r); break; }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C19", Options{ 40000, 600000 }, oneCase); }
