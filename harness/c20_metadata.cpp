// C20: what is written through the metadata builder is read back unchanged; structured information equals what the XML says.
#include "vh.hpp"
#include "memio.hpp"
#include "libCZI.h"
#include "libCZI_Metadata2.h"
#include <cmath>
#include <climits>
#include <cwchar>
#include <functional>
#include <limits>
using namespace vh;
using std::wstring; using std::string;
using libCZI::DimensionIndex; using libCZI::IXmlNodeRead; using libCZI::IXmlNodeRw; using libCZI::XmlDateTime;

// ------------------------------------------------------------------------- text
static string u8(const wstring& s)
{
    string o;
    for (wchar_t w : s)
    {
        uint32_t c = (uint32_t)w;
        if (c < 0x80) o += (char)c;
        else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
        else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    }
    return o;
}
static wstring W(const string& s) { return wstring(s.begin(), s.end()); }        // ASCII only
static string show(const wstring& s) { std::ostringstream o; for (wchar_t c : s) { if (c >= 32 && c < 127) o << (char)c; else o << "\\u" << std::hex << (uint32_t)c << std::dec << ";"; } return o.str(); }
static wchar_t anyChar(Rng& r)
{
    switch (r.below(9))
    {
    case 0: case 1: return (wchar_t)r.range('a', 'z');
    case 2: return (wchar_t)r.range('0', '9');
    case 3: { static const wchar_t s[] = L"<>&\"'[]/,;=#%!?-]"; return s[r.below(sizeof(s) / sizeof(s[0]) - 1)]; }
    case 4: { static const wchar_t s[] = L" \t\n  "; return s[r.below(5)]; }
    case 5: return (wchar_t)r.range(0xA1, 0x2FF);
    case 6: return (wchar_t)r.range(0x370, 0xD7FF);
    case 7: return (wchar_t)r.range(0xE000, 0xFFFD);
    default: return (wchar_t)r.range(0x10000, 0x10FFFD);
    }
}
static bool isWs(wchar_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static wstring anyText(Rng& r)
{
    if (r.chance(6)) { wstring s; for (int i = r.range(1, 3000); i > 0; --i) s += anyChar(r); s += L'x'; return s; }
    if (r.chance(6)) return r.pick({ wstring(L"]]>"), wstring(L"<![CDATA[x]]>"), wstring(L"&amp;"), wstring(L"&#65;"), wstring(L"<A>b</A>"), wstring(L"<!-- c -->"), wstring(L"a\nb"), wstring(L" lead"), wstring(L"trail \n"), wstring(L"\U0001F52C") });
    wstring s; bool ok = false;
    for (int i = r.range(1, 14); i > 0 || !ok; --i) { s += anyChar(r); ok = ok || !isWs(s.back()); }
    return s;
}
static wstring anyName(Rng& r)
{
    static const std::vector<wstring> names{ L"A", L"B", L"C", L"Item", L"Value", L"Channel", L"a", L"x-y", L"n.1", L"_u", L"Gr\u00f6\u00dfe", L"\u65e5\u672c", L"AA", L"ns:El" };
    if (r.chance(4)) { wstring s = L"N"; for (int i = r.range(1, 60); i > 0; --i) s += (wchar_t)r.range('a', 'z'); return s; }
    return r.pick(names);
}
static wstring selText(Rng& r) // a value usable in a selector
{
    wstring s; for (int i = r.range(1, 8); i > 0; --i) { wchar_t c = r.chance(50) ? (wchar_t)r.range('0', 'z') : anyChar(r); if (wcschr(L",;[]/", c) != nullptr || c == L'\n' || c == L'\r') c = L'q'; s += c; }
    return s;
}
static double anyDouble(Rng& r, bool normalOnly = false)
{
    for (;;)
    {
        double v;
        switch (r.below(7))
        {
        case 0: v = r.range(-1000, 1000); break;
        case 1: v = r.range(-100000, 100000) / 1000.0; break;
        case 2: v = r.unit(); break;
        case 3: v = r.unit() * std::pow(10.0, r.range(-30, 30)) * (r.chance(50) ? 1 : -1); break;
        case 4: v = r.pick({ 0.0, 1.0, -1.0, 0.1, 1e-7, 2.2250738585072014e-308, 1.7976931348623157e308, 1.0 / 3, 123456789.123456789, 6.25e-8, 4.94065645841246544e-324 }); break;
        case 5: { uint64_t b = r.next(); memcpy(&v, &b, 8); break; }
        default: v = r.unit() * 1e-6; break;
        }
        if (std::isfinite(v) && (!normalOnly || v == 0 || std::isnormal(v))) return v;
    }
}
static string dblText(Rng& r, double v)
{
    char b[400]; snprintf(b, sizeof(b), r.chance(70) ? "%.17g" : "%.20e", v);
    if (std::fabs(v) < 1e9 && v == std::floor(v) && r.chance(50)) snprintf(b, sizeof(b), r.chance(50) ? "%.0f" : "%.1f", v);
    return b;
}

// ------------------------------------------------------------------------- document model
struct N
{
    wstring name; std::vector<std::pair<wstring, wstring>> attrs; bool hasText = false; wstring text; std::vector<std::shared_ptr<N>> kids;
    explicit N(wstring n) : name(std::move(n)) {}
    N& add(const wstring& n) { kids.push_back(std::make_shared<N>(n)); return *kids.back(); }
    N& add(const char* n) { return add(W(n)); }
    N& at(const string& path) { N* n = this; size_t p = 0; while (p <= path.size()) { size_t e = path.find('/', p); if (e == string::npos) e = path.size(); wstring k = W(path.substr(p, e - p)); N* f = nullptr; for (auto& c : n->kids) if (c->name == k) { f = c.get(); break; } n = f ? f : &n->add(k); p = e + 1; } return *n; }
    N& val(const wstring& t) { hasText = true; text = t; return *this; }
    N& val(const string& t) { return val(W(t)); }
    void attr(const wstring& k, const wstring& v) { for (auto& a : attrs) if (a.first == k) { a.second = v; return; } attrs.emplace_back(k, v); }
};
using NP = std::shared_ptr<N>;
struct Step { wstring name; int index = -1; std::vector<std::pair<wstring, wstring>> sel; };
static string stepText(const Step& s) { wstring t = s.name; if (s.index >= 0) t += L"[" + std::to_wstring(s.index) + L"]"; else if (!s.sel.empty()) { t += L"["; for (size_t i = 0; i < s.sel.size(); ++i) { if (i) t += L","; t += s.sel[i].first + L"=" + s.sel[i].second; } t += L"]"; } return u8(t); }
static string pathText(const std::vector<Step>& p) { string s; for (size_t i = 0; i < p.size(); ++i) { if (i) s += "/"; s += stepText(p[i]); } return s; }
static NP findStep(N& n, const Step& s)
{
    int i = 0;
    for (auto& k : n.kids)
    {
        if (k->name != s.name) continue;
        if (s.index >= 0) { if (i++ == s.index) return k; continue; }
        bool all = true; for (auto& q : s.sel) { bool has = false; for (auto& a : k->attrs) if (a.first == q.first) { has = a.second == q.second; break; } all = all && has; }
        if (all) return k;
    }
    return nullptr;
}
static NP findPath(const NP& from, const std::vector<Step>& p) { NP n = from; for (auto& s : p) { n = findStep(*n, s); if (!n) return nullptr; } return n; }

static void compare(IXmlNodeRead& x, const N& n, const string& where, const char* key)
{
    ctx().evals++;
    VH_CHECK(x.Name() == n.name, key, where + ": name is '" + show(x.Name()) + "' instead of '" + show(n.name) + "'");
    std::vector<std::pair<wstring, wstring>> at; x.EnumAttributes([&](const wstring& k, const wstring& v) { at.emplace_back(k, v); return true; });
    VH_EQ(at.size(), n.attrs.size(), key, where + ": number of attributes");
    for (size_t i = 0; i < at.size(); ++i)
    {
        VH_CHECK(at[i].first == n.attrs[i].first && at[i].second == n.attrs[i].second, key, where + ": attribute " + show(at[i].first) + "='" + show(at[i].second) + "' instead of " + show(n.attrs[i].first) + "='" + show(n.attrs[i].second) + "'");
        wstring v; bool b = x.TryGetAttribute(n.attrs[i].first.c_str(), &v);
        VH_CHECK(b && v == n.attrs[i].second, key, where + ": TryGetAttribute(" + show(n.attrs[i].first) + ") gives '" + (b ? show(v) : "nothing") + "'"); ev("attribute");
    }
    VH_CHECK(!x.TryGetAttribute(L"NotThere", nullptr), key, where + ": has an attribute which was never set");
    if (at.size() > 1) { int c = 0; x.EnumAttributes([&](const wstring&, const wstring&) { ++c; return false; }); VH_EQ(c, 1, key, where + ": enumerating attributes does not stop"); }
    wstring v; bool b = x.TryGetValue(&v);
    VH_CHECK(b == n.hasText && (!b || v == n.text), key, where + ": value is " + (b ? "'" + show(v) + "'" : "absent") + " instead of " + (n.hasText ? "'" + show(n.text) + "'" : "absent"));
    VH_EQ(x.TryGetValue(nullptr), n.hasText, key, where + ": TryGetValue(nullptr)"); if (b) ev("value");
    std::vector<std::shared_ptr<IXmlNodeRead>> kids; x.EnumChildren([&](std::shared_ptr<IXmlNodeRead> k) { kids.push_back(k); return true; });
    VH_EQ(kids.size(), n.kids.size(), key, where + ": number of children");
    if (kids.size() > 1) { int c = 0; x.EnumChildren([&](std::shared_ptr<IXmlNodeRead>) { ++c; return false; }); VH_EQ(c, 1, key, where + ": enumerating children does not stop"); }
    for (size_t i = 0; i < kids.size(); ++i) compare(*kids[i], *n.kids[i], where + "/" + u8(n.kids[i]->name), key);
}
static std::vector<Step> randomPath(Rng& r, const NP& root)
{
    std::vector<Step> p; NP n = root;
    for (int d = r.range(1, 4); d > 0; --d)
    {
        Step s;
        if (n && !n->kids.empty() && r.chance(88))
        {
            auto k = n->kids[(size_t)r.below(n->kids.size())]; s.name = k->name;
            if (r.chance(40)) { int i = 0; for (auto& q : n->kids) { if (q == k) break; if (q->name == k->name) ++i; } s.index = r.chance(85) ? i : r.range(0, 6); }
            else if (r.chance(55)) for (auto& a : k->attrs) if (r.chance(60)) { bool bad = a.second.find_first_of(L",;[]/") != wstring::npos || a.second.find_first_of(L"\r\n\u2028\u2029") != wstring::npos; if (!bad) s.sel.emplace_back(a.first, r.chance(88) ? a.second : a.second + L"z"); }
        }
        else s.name = anyName(r);
        p.push_back(s); if (n) n = findStep(*n, s);
    }
    return p;
}
static void lookups(Rng& r, IXmlNodeRead& base, const NP& root, const string& prefix, const char* key, int count)
{
    for (; count > 0; --count)
    {
        auto p = randomPath(r, root); string t = prefix + pathText(p); NP want = findPath(root, p);
        auto got = base.GetChildNodeReadonly(t.c_str());
        VH_CHECK((got != nullptr) == (want != nullptr), key, "path '" + t + "' is " + (got ? "found but should not be" : "not found"));
        if (got) { compare(*got, *want, t, key); ev("path-found"); } else ev("path-absent");
    }
}

struct XmlSegment : libCZI::IMetadataSegment
{
    string s; explicit XmlSegment(string x) : s(std::move(x)) {}
    std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* n) override { size_t k = t == XmlMetadata ? s.size() : 0; if (n) *n = k; auto p = std::make_shared<std::vector<char>>(s.begin(), s.begin() + k); return std::shared_ptr<const void>(p, p->data()); }
    void DangerousGetRawData(MemBlkType t, const void*& p, size_t& n) const override { p = s.data(); n = t == XmlMetadata ? s.size() : 0; }
};
static std::shared_ptr<libCZI::ICziMetadata> parse(const string& xml) { XmlSegment s(xml); auto m = libCZI::CreateMetaFromMetadataSegment(&s); VH_CHECK(m->IsXmlValid(), "xml-invalid", "the XML is not accepted: " + xml.substr(0, 600)); return m; }
/// store the XML in a file and read it from there
static std::shared_ptr<libCZI::ICziMetadata> viaFile(Rng& r, const string& xml)
{
    auto f = makeFile(); libCZI::GUID g{ 1, 2, 3, { 4, 5, 6, 7, 8, 9, 10, 11 } };
    libCZI::WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = xml.c_str(); mi.szMetadataSize = xml.size();
    bool rw = r.chance(35);
    {
        auto w = libCZI::CreateCZIWriter(); w->Create(std::make_shared<MemOut>(f), std::make_shared<libCZI::CCziWriterInfo>(g));
        if (rw) { string old = "<ImageDocument><Metadata><Old>"; old.append((size_t)r.range(0, 4000), 'o'); old += "</Old></Metadata></ImageDocument>"; libCZI::WriteMetadataInfo o; o.Clear(); o.szMetadata = old.c_str(); o.szMetadataSize = old.size(); w->SyncWriteMetadata(o); }
        else w->SyncWriteMetadata(mi);
        w->Close();
    }
    if (rw) { auto w = libCZI::CreateCZIReaderWriter(); w->Create(std::make_shared<MemInOut>(f), nullptr); w->SyncWriteMetadata(mi); w->Close(); ev("via-rw"); }
    auto rd = libCZI::CreateCZIReader(); rd->Open(std::make_shared<MemIn>(f)); auto seg = rd->ReadMetadataSegment(); VH_CHECK(seg != nullptr, "file-metadata", "no metadata segment");
    auto m = seg->CreateMetaFromMetadataSegment(); VH_CHECK(m->IsXmlValid(), "file-metadata", "XML from the file is invalid"); ev("via-file"); return m;
}

// ------------------------------------------------------------------------- (a) the builder against a model
struct Handle { NP n; std::shared_ptr<IXmlNodeRw> x; };
static void purge(std::vector<Handle>& hs, const N& gone) { hs.erase(std::remove_if(hs.begin(), hs.end(), [&](const Handle& h) { return h.n.get() == &gone; }), hs.end()); for (auto& k : gone.kids) purge(hs, *k); }
static void purgeKids(std::vector<Handle>& hs, const N& n) { for (auto& k : n.kids) purge(hs, *k); }
static void builderHistory(Rng& r)
{
    auto b = libCZI::CreateMetadataBuilder(); NP root = std::make_shared<N>(L"ImageDocument"); std::vector<Handle> hs{ { root, b->GetRootNode() } };
    int ops = r.chance(8) ? r.range(50, 250) : r.range(1, 30); string log;
    auto note = [&](const string& s) { if (log.size() < 3000) log += s + "; "; ctx().currentDesc = log; };
    for (int i = 0; i < ops; ++i)
    {
        if (hs.size() > 40) hs.erase(hs.begin() + 1, hs.begin() + 20);
        size_t hi = (size_t)r.below(hs.size()); Handle h = hs[hi]; N& n = *h.n; int op = (int)r.below(20);
        switch (op)
        {
        case 0: case 1: case 2: case 3: case 4: case 5: // get or create
        {
            std::vector<Step> p;
            for (int d = r.range(1, 4); d > 0; --d)
            {
                Step s; s.name = anyName(r);
                if (r.chance(35)) for (int k = r.range(1, 3); k > 0; --k) { wstring an = r.pick({ wstring(L"Id"), wstring(L"Name"), wstring(L"Typ\u00e9"), wstring(L"k") }); bool dup = false; for (auto& q : s.sel) dup = dup || q.first == an; if (!dup) s.sel.emplace_back(an, selText(r)); }
                p.push_back(s);
            }
            if (r.chance(40)) { p = randomPath(r, h.n); for (auto& s : p) s.index = -1; }
            if (!n.kids.empty() && r.chance(30)) { p = randomPath(r, h.n); for (auto& s : p) s.index = -1; }
            string t = pathText(p); note("goc '" + t + "'");
            NP m = h.n; std::vector<NP> created;
            for (auto& s : p) { NP k = findStep(*m, s); if (!k) { m->kids.push_back(std::make_shared<N>(s.name)); k = m->kids.back(); auto sel = s.sel; std::sort(sel.begin(), sel.end()); k->attrs = sel; ev("created"); } else ev("got"); m = k; }
            auto x = h.x->GetOrCreateChildNode(t.c_str()); VH_CHECK(x != nullptr, "builder", "GetOrCreateChildNode('" + t + "') gives null");
            // the order of attributes from a selector is not specified, so take it from the object
            for (NP q = h.n; ; ) { (void)q; break; }
            hs.push_back({ m, x });
            break;
        }
        case 6: { wstring nm = anyName(r); note("append " + u8(nm)); auto x = h.x->AppendChildNode(u8(nm).c_str()); n.kids.push_back(std::make_shared<N>(nm)); hs.push_back({ n.kids.back(), x }); break; }
        case 7: case 8: case 9: case 10: // set a value
        {
            if (!n.kids.empty())
            {
                bool thrown = false; try { h.x->SetValue("x"); } catch (libCZI::LibCZIMetadataBuilderException& e) { thrown = e.GetErrorType() == libCZI::LibCZIMetadataBuilderException::ErrorType::CannotSetValueToNode; }
                VH_CHECK(thrown, "builder", "setting the value of a node with children is not refused"); ev("set-refused"); break;
            }
            n.hasText = true; auto x = h.x;
            switch (r.below(9))
            {
            case 0: case 1: { n.text = anyText(r); x->SetValue(n.text.c_str()); break; }
            case 2: { n.text = anyText(r); x->SetValue(u8(n.text)); break; }
            case 3: { int v = r.pick({ 0, 1, -1, INT_MAX, INT_MIN, r.range(INT_MIN, INT_MAX) }); x->SetValueI32(v); n.text = W(std::to_string(v)); int32_t q; int64_t q64; double d; VH_CHECK(x->TryGetValueAsInt32(&q) && q == v, "value-i32", std::to_string(v)); VH_CHECK(x->TryGetValueAsInt64(&q64) && q64 == v, "value-i32-as-i64", std::to_string(v)); VH_CHECK(x->TryGetValueAsDouble(&d) && d == v, "value-i32-as-dbl", std::to_string(v)); uint32_t u; if (v >= 0) VH_CHECK(x->TryGetValueAsUInt32(&u) && u == (uint32_t)v, "value-i32-as-u32", std::to_string(v)); bool bb; bool ok = x->TryGetValueAsBool(&bb); VH_CHECK(ok == (v == 0 || v == 1) && (!ok || bb == (v == 1)), "value-i32-as-bool", std::to_string(v)); break; }
            case 4: { uint32_t v = r.pick({ 0u, 1u, 4294967295u, (uint32_t)r.next() }); x->SetValueUI32(v); n.text = W(std::to_string(v)); uint32_t q; int32_t s; VH_CHECK(x->TryGetValueAsUInt32(&q) && q == v, "value-u32", std::to_string(v)); bool fits = v <= (uint32_t)INT_MAX; VH_CHECK(x->TryGetValueAsInt32(&s) == fits && (!fits || (uint32_t)s == v), "value-u32-as-i32", std::to_string(v)); break; }
            case 5: { int64_t v = r.pick({ (int64_t)0, (int64_t)INT64_MAX, (int64_t)INT64_MIN, (int64_t)r.next() }); x->SetValueI64(v); n.text = W(std::to_string(v)); int64_t q; VH_CHECK(x->TryGetValueAsInt64(&q) && q == v, "value-i64", std::to_string(v)); int32_t s; bool fits = v >= INT_MIN && v <= INT_MAX; VH_CHECK(x->TryGetValueAsInt32(&s) == fits && (!fits || s == v), "value-i64-as-i32", std::to_string(v)); break; }
            case 6: { uint64_t v = r.pick({ (uint64_t)0, (uint64_t)UINT64_MAX, (uint64_t)r.next() }); x->SetValueUI64(v); n.text = W(std::to_string(v)); uint64_t q; VH_CHECK(x->TryGetValueAsUInt64(&q) && q == v, "value-u64", std::to_string(v)); uint32_t s; bool fits = v <= 4294967295u; VH_CHECK(x->TryGetValueAsUInt32(&s) == fits && (!fits || s == v), "value-u64-as-u32", std::to_string(v)); break; }
            case 7: { bool v = r.chance(50); x->SetValueBool(v); n.text = v ? L"true" : L"false"; bool q; VH_CHECK(x->TryGetValueAsBool(&q) && q == v, "value-bool", n.text.size()); int32_t i32; VH_CHECK(!x->TryGetValueAsInt32(&i32), "value-bool-as-int", n.text.size()); break; }
            default:
            {
                double q; float f; wstring t;
                if (r.chance(50)) { double v = anyDouble(r); x->SetValueDbl(v); VH_CHECK(x->TryGetValueAsDouble(&q) && q == v, "value-dbl", v); }
                else { float v; do v = (float)anyDouble(r); while (!std::isfinite(v)); x->SetValueFlt(v); VH_CHECK(x->TryGetValueAsFloat(&f) && f == v, "value-flt", v); }
                VH_CHECK(x->TryGetValue(&t), "value-dbl", "no value"); n.text = t; // the formatting of numbers is not specified
            }
            }
            note("value"); ev("set-value"); break;
        }
        case 11: case 12: case 13: { wstring k = r.pick({ wstring(L"Id"), wstring(L"Name"), wstring(L"Typ\u00e9"), wstring(L"k"), anyName(r) }); wstring v = r.chance(5) ? wstring() : r.chance(50) ? selText(r) : anyText(r); note("attr"); if (r.chance(50)) h.x->SetAttribute(k.c_str(), v.c_str()); else h.x->SetAttribute(u8(k).c_str(), u8(v).c_str()); n.attr(k, v); ev("set-attribute"); break; }
        case 14: { wstring k = r.chance(80) && !n.attrs.empty() ? n.attrs[(size_t)r.below(n.attrs.size())].first : anyName(r); bool had = false; for (size_t q = 0; q < n.attrs.size(); ++q) if (n.attrs[q].first == k) { had = true; n.attrs.erase(n.attrs.begin() + (long)q); break; } note("rmattr"); VH_EQ(h.x->RemoveAttribute(u8(k).c_str()), had, "builder", "RemoveAttribute"); ev("remove-attribute"); break; }
        case 15: { wstring k = r.chance(80) && !n.kids.empty() ? n.kids[(size_t)r.below(n.kids.size())]->name : anyName(r); bool had = false; for (size_t q = 0; q < n.kids.size(); ++q) if (n.kids[q]->name == k) { had = true; NP gone = n.kids[q]; purge(hs, *gone); n.kids.erase(n.kids.begin() + (long)q); break; } note("rmchild " + u8(k)); VH_EQ(h.x->RemoveChild(u8(k).c_str()), had, "builder", "RemoveChild"); ev("remove-child"); break; }
        case 16: if (r.chance(25)) { note("rmchildren"); h.x->RemoveChildren(); purgeKids(hs, n); n.kids.clear(); n.hasText = false; ev("remove-children"); } else if (r.chance(40)) { note("rmattrs"); h.x->RemoveAttributes(); n.attrs.clear(); } break;
        case 17: { auto p = randomPath(r, h.n); string t = pathText(p); NP want = findPath(h.n, p); auto x = h.x->GetChildNode(t.c_str()); VH_CHECK((x != nullptr) == (want != nullptr), "builder", "GetChildNode('" + t + "') " + (x ? "finds a node which does not exist" : "does not find the node")); if (x) hs.push_back({ want, x }); break; }
        case 18:
        {
            string t = r.pick({ string(""), string("/A"), string("A/"), string("A["), string("A]"), string("A[Id=x"), string("[Id=x]"), string("A[=x]"), string("A[Id]"), string("A[Id=x]b"), string("A[Id=1][Name=2]"), string("A[]") });
            for (int w = 0; w < 3; ++w)
            {
                bool ok = false; try { if (w == 0) h.x->GetOrCreateChildNode(t.c_str()); else if (w == 1) h.x->GetChildNode(t.c_str()); else h.x->GetChildNodeReadonly(t.c_str()); } catch (libCZI::LibCZIMetadataBuilderException& e) { ok = e.GetErrorType() == libCZI::LibCZIMetadataBuilderException::ErrorType::InvalidPath; }
                VH_CHECK(ok, "bad-path", "the path '" + t + "' is not refused (" + std::to_string(w) + ")");
            }
            ev("bad-path"); break;
        }
        default: lookups(r, *h.x, h.n, "", "builder", 2); break;
        }
    }
    compare(*b->GetRootNode(), *root, "builder", "builder");
    bool indent = r.chance(50); string xml = b->GetXml(indent); ctx().currentDesc = log; ctx().seenHash(hash64(xml));
    auto m = r.chance(25) ? viaFile(r, xml) : parse(xml);
    auto rootRead = m->GetChildNodeReadonly("ImageDocument"); VH_CHECK(rootRead != nullptr, "read-back", "no root"); compare(*rootRead, *root, indent ? "read(indented)" : "read", "read-back");
    lookups(r, *m, root, "ImageDocument/", "read-back", 4);
    if (r.chance(30)) { auto m2 = parse(m->GetXml()); compare(*m2->GetChildNodeReadonly("ImageDocument"), *root, "GetXml", "read-back"); ev("getxml"); }
    if (r.chance(40)) { auto b2 = libCZI::CreateMetadataBuilderFromXml(xml); compare(*b2->GetRootNode(), *root, "builder from XML", "builder-from-xml"); string xml2 = b2->GetXml(r.chance(50)); compare(*parse(xml2)->GetChildNodeReadonly("ImageDocument"), *root, "builder from XML, read", "builder-from-xml"); ev("builder-from-xml"); }
    ev("builder-history");
}

// ------------------------------------------------------------------------- XML by hand
static void put(Rng& r, string& o, const wstring& t, char quote)
{
    for (wchar_t c : t)
    {
        bool must = c == L'<' || c == L'&' || c == L'>' || c == L'\r' || (quote && (c == L'\n' || c == L'\t' || c == (wchar_t)quote));
        if (must || r.chance(3))
        {
            if (c == L'<') o += "&lt;"; else if (c == L'&') o += "&amp;"; else if (c == L'>') o += "&gt;"; else if (c == L'"') o += "&quot;"; else if (c == L'\'') o += "&apos;";
            else { char b[20]; snprintf(b, sizeof(b), r.chance(50) ? "&#%u;" : "&#x%X;", (unsigned)c); o += b; }
        }
        else o += u8(wstring(1, c));
    }
}
static void toXml(Rng& r, string& o, const N& n, bool pretty, int depth = 0)
{
    auto nl = [&](int d) { if (pretty) { o += "\n"; o.append((size_t)d * 2, ' '); } };
    o += "<" + u8(n.name);
    for (auto& a : n.attrs) { char q = r.chance(70) ? '"' : '\''; o += string(pretty && r.chance(5) ? "\n  " : " ") + u8(a.first) + "=" + q; put(r, o, a.second, q); o += q; }
    if (n.kids.empty() && !n.hasText) { o += r.chance(70) ? "/>" : "></" + u8(n.name) + ">"; return; }
    o += ">";
    if (n.hasText)
    {
        if (r.chance(6) && n.text.find(L"]]>") == wstring::npos && n.text.find(L'\r') == wstring::npos) { o += "<![CDATA[" + u8(n.text) + "]]>"; ev("cdata"); }
        else put(r, o, n.text, 0);
    }
    for (auto& k : n.kids) { nl(depth + 1); if (r.chance(2)) o += "<!-- a comment <X>1</X> -->"; toXml(r, o, *k, pretty, depth + 1); }
    if (!n.kids.empty()) nl(depth);
    o += "</" + u8(n.name) + ">";
}
static string document(Rng& r, const N& root) { string o; if (r.chance(40)) o += "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"; toXml(r, o, root, r.chance(50)); return o; }
static void shuffleTree(Rng& r, N& n, bool here = true) { if (here) r.shuffle(n.kids); for (auto& k : n.kids) shuffleTree(r, *k, k->name != L"Channels" && k->name != L"LightSourcesSettings" && k->name != L"Source1" && k->name != L"Source2"); }

// ------------------------------------------------------------------------- (c) structured readers
using Ch = libCZI::IDimensionChannelInfo; using ChP = std::shared_ptr<Ch>;
struct ChannelGen
{
    Rng& r; std::vector<std::function<void(const ChP&)>> checks; string tag; int present;
    explicit ChannelGen(Rng& rr) : r(rr), present(rr.pick({ 15, 50, 95 })) {}
    bool on() { return r.chance(present); }
    template <class T, class G, class M> void expect(G g, M m, string name, bool has, T v)
    {
        string what = tag + name;
        checks.push_back([=](const ChP& c)
            {
                auto o = g(c); VH_CHECK(o != nullptr, "channel-info", what + ": the group is missing");
                T got{}; bool b = ((*o).*m)(&got); ctx().evals++;
                VH_EQ(b, has, "channel-info", what + ": is reported as present"); VH_EQ(((*o).*m)(nullptr), has, "channel-info", what + " (asked with nullptr)");
                if (has) { VH_CHECK(got == v, "channel-info", what + ": the value differs"); ev("field"); ctx().seen(what); }
            });
    }
    template <class G, class M> void D(N& p, G g, M m, const char* nm) { bool has = on(); double v = anyDouble(r); if (has) p.add(nm).val(dblText(r, v)); expect<double>(g, m, nm, has, v); }
    template <class G, class M> void S(N& p, G g, M m, const char* nm) { bool has = on(); wstring v = anyText(r); if (has) p.add(nm).val(v); expect<wstring>(g, m, nm, has, v); }
    template <class G, class M> void I(N& p, G g, M m, const char* nm) { bool has = on(); int v = r.pick({ 0, 1, -1, 16, INT_MAX, INT_MIN, r.range(-1000, 1000) }); if (has) p.add(nm).val(std::to_string(v)); expect<int>(g, m, nm, has, v); }
    template <class G, class M> void U(N& p, G g, M m, const char* nm) { bool has = on(); uint32_t v = r.pick({ 0u, 1u, 4294967295u, (uint32_t)r.next() }); if (has) p.add(nm).val(std::to_string(v)); expect<uint32_t>(g, m, nm, has, v); }
    template <class G, class M> void B(N& p, G g, M m, const char* nm) { bool has = on(); bool v = r.chance(50); if (has) p.add(nm).val(string(v ? "true" : "false")); expect<bool>(g, m, nm, has, v); }
    template <class G, class M> void Ref(N& p, G g, M m, const char* nm) { bool el = on(), has = el && on(); wstring v = anyText(r); if (el) { N& e = p.add(nm); if (r.chance(30)) e.attr(L"Name", anyText(r)); if (has) e.attr(L"Id", v); } expect<wstring>(g, m, nm, has, v); }
    template <class E, class G, class M> void En(N& p, G g, M m, const char* nm, const std::vector<std::pair<string, E>>& vals)
    {
        bool has = on(); auto v = vals[(size_t)r.below(vals.size())]; bool unknown = has && r.chance(8); string t = unknown ? r.pick({ string("Bogus"), v.first + "X", string("_") + v.first }) : v.first; if (has) p.add(nm).val(t);
        expect<E>(g, m, string(nm) + "=" + t, has && !unknown, v.second);
    }
    template <class G> N* group(N& p, G g, const char* nm)
    {
        bool has = on(); string what = tag + nm; checks.push_back([=](const ChP& c) { VH_EQ(g(c) != nullptr, has, "channel-info", what + ": group present"); });
        return has ? &p.add(nm) : nullptr;
    }
    template <class M> void Spectrum(N& p, M m, const char* nm)
    {
        bool has = on(); libCZI::SpectrumCharacteristics w; w.singlePeak = 0; w.type = libCZI::SpectrumCharacteristics::InformationType::SinglePeak; string txt;
        if (has)
        {
            N& e = p.add(nm);
            if (r.chance(40)) { w.singlePeak = anyDouble(r); txt = dblText(r, w.singlePeak); e.add("SinglePeak").val(txt); }
            else
            {
                w.type = libCZI::SpectrumCharacteristics::InformationType::Ranges;
                for (int i = r.range(1, 5); i > 0; --i)
                {
                    libCZI::RangeOrSingleValue<double> x; auto num = [&] { return r.chance(50) ? (double)r.range(0, 900) : r.range(0, 900000) / 64.0; }; auto t = [&](double d) { char b[60]; snprintf(b, sizeof(b), "%.17g", d); return string(b); };
                    x.singleValue = r.chance(30); x.startOrSingleValue = num(); x.end = num(); if (!txt.empty()) txt += r.chance(50) ? "," : ", ";
                    txt += t(x.startOrSingleValue); if (!x.singleValue) { if (r.chance(15)) { x.end = (std::numeric_limits<double>::max)(); txt += "-"; } else txt += (r.chance(80) ? "-" : " - ") + t(x.end); }
                    w.ranges.push_back(x);
                }
                e.add("Ranges").val(txt);
            }
        }
        string what = tag + nm + " '" + txt + "'";
        checks.push_back([=](const ChP& c)
            {
                libCZI::SpectrumCharacteristics g; bool b = ((*c).*m)(&g); VH_EQ(b, has, "channel-info", what); VH_EQ(((*c).*m)(nullptr), has, "channel-info", what); if (!has) return;
                VH_CHECK(g.type == w.type, "channel-info", what + ": type"); if (w.type == libCZI::SpectrumCharacteristics::InformationType::SinglePeak) { VH_CHECK(g.singlePeak == w.singlePeak, "channel-info", what + ": peak"); return; }
                VH_EQ(g.ranges.size(), w.ranges.size(), "channel-info", what + ": count"); for (size_t i = 0; i < g.ranges.size(); ++i) VH_CHECK(g.ranges[i].singleValue == w.ranges[i].singleValue && g.ranges[i].startOrSingleValue == w.ranges[i].startOrSingleValue && (g.ranges[i].singleValue || g.ranges[i].end == w.ranges[i].end), "channel-info", what + ": range " + std::to_string(i)); ev("spectrum");
            });
    }
    void make(N& ch);
};
void ChannelGen::make(N& ch)
{
    using namespace libCZI; auto me = [](const ChP& c) { return c; };
#define EV(E, x) { #x, E::x }
    { bool has = on(); wstring v = anyText(r); if (has) ch.attr(L"Id", v); expect<wstring>(me, &Ch::TryGetAttributeId, "@Id", has, v); }
    { bool has = on(); wstring v = anyText(r); if (has) ch.attr(L"Name", v); expect<wstring>(me, &Ch::TryGetAttributeName, "@Name", has, v); }
    { using E = DimensionChannelChannelType; En<E>(ch, me, &Ch::TryGetChannelType, "ChannelType", { EV(E,Heightmap),EV(E,PalHR),EV(E,PalWidefield),EV(E,SimHR),EV(E,SimWidefield),EV(E,SimDWF),EV(E,AiryScanSum),EV(E,AiryScanRawSr),EV(E,AiryScanRaw),EV(E,AiryScanSr),EV(E,AiryScanVp),EV(E,AiryScanMb),EV(E,AiryScanRingSheppardSum),EV(E,OnlineUnmixing),EV(E,Unspecified) }); }
    S(ch, me, &Ch::TryGetChannelUnit, "ChannelUnit");
    { using E = PixelType; En<E>(ch, me, &Ch::TryGetPixelType, "PixelType", { EV(E,Gray8),EV(E,Gray16),EV(E,Gray32Float),EV(E,Bgr24),EV(E,Bgr48),EV(E,Bgr96Float),EV(E,Bgra32),EV(E,Gray64ComplexFloat),EV(E,Bgr192ComplexFloat),EV(E,Gray32),EV(E,Gray64Float) }); }
    I(ch, me, &Ch::TryGetComponentBitCount, "ComponentBitCount");
    { using E = DimensionChannelAcquisitionMode; En<E>(ch, me, &Ch::TryGetAcquisitionMode, "AcquisitionMode", { EV(E,WideField),EV(E,LaserScanningConfocalMicroscopy),EV(E,SpinningDiskConfocal),EV(E,SlitScanConfocal),EV(E,MultiPhotonMicroscopy),EV(E,StructuredIllumination),EV(E,SingleMoleculeImaging),EV(E,TotalInternalReflection),EV(E,FluorescenceLifetime),EV(E,SpectralImaging),EV(E,FluorescenceCorrelationSpectroscopy),EV(E,NearFieldScanningOpticalMicroscopy),EV(E,SecondHarmonicGenerationImaging),EV(E,PALM),EV(E,STORM),EV(E,STED),EV(E,TIRF),EV(E,FSM),EV(E,LCM),EV(E,SPIM),EV(E,SEM),EV(E,FIB),{"FIB-SEM",E::FIB_SEM},EV(E,ApertureCorrelation),EV(E,Other) }); }
    { using E = DimensionChannelIlluminationType; En<E>(ch, me, &Ch::TryGetIlluminationType, "IlluminationType", { EV(E,Transmitted),EV(E,Epifluorescence),EV(E,Oblique),EV(E,NonLinear),EV(E,Other) }); }
    { using E = DimensionChannelContrastMethod; En<E>(ch, me, &Ch::TryGetContrastMethod, "ContrastMethod", { EV(E,Brightfield),EV(E,Phase),EV(E,DIC),EV(E,HoffmanModulation),EV(E,ObliqueIllumination),EV(E,PolarizedLight),EV(E,Darkfield),EV(E,Fluorescence),EV(E,MultiPhotonFluorescence),EV(E,Other) }); }
    Spectrum(ch, &Ch::TryGetIlluminationWavelength, "IlluminationWavelength"); Spectrum(ch, &Ch::TryGetDetectionWavelength, "DetectionWavelength");
    D(ch, me, &Ch::TryGetExcitationWavelength, "ExcitationWavelength"); D(ch, me, &Ch::TryGetEmissionWavelength, "EmissionWavelength"); D(ch, me, &Ch::TryGetEffectiveNA, "EffectiveNA");
    S(ch, me, &Ch::TryGetDyeId, "DyeId"); S(ch, me, &Ch::TryGetDyeDatabaseId, "DyeDatabaseId"); D(ch, me, &Ch::TryGetPinholeSize, "PinholeSize"); D(ch, me, &Ch::TryGetPinholeSizeAiry, "PinholeSizeAiry");
    { using E = DimensionChannelPinholeGeometry; En<E>(ch, me, &Ch::TryGetPinholeGeometry, "PinholeGeometry", { EV(E,Circular),EV(E,Rectangular),EV(E,Other) }); }
    S(ch, me, &Ch::TryGetFluor, "Fluor"); D(ch, me, &Ch::TryGetNDFilter, "NDFilter"); I(ch, me, &Ch::TryGetPocketCellSetting, "PockelCellSetting");
    {
        bool has = on(); uint32_t v = (uint32_t)r.next(); char b[20]; snprintf(b, sizeof(b), r.chance(50) ? "#%08X" : "#%08x", v); if (has) ch.add("Color").val(string(b)); string what = string("Color ") + b;
        checks.push_back([=](const ChP& c) { Rgb8Color g{}; VH_EQ(c->TryGetColor(&g), has, "channel-info", what); if (has) VH_CHECK(g.r == (uint8_t)(v >> 16) && g.g == (uint8_t)(v >> 8) && g.b == (uint8_t)v, "channel-info", what + ": value"); });
    }
    {
        bool has = on(); RangeOrSingleValue<uint64_t> w{}; w.singleValue = r.chance(50); w.startOrSingleValue = r.pick({ (uint64_t)0, (uint64_t)UINT64_MAX, r.next(), r.below(1000000) }); w.end = r.pick({ r.next(), r.below(1000000) });
        string t = std::to_string(w.startOrSingleValue); if (!w.singleValue) { if (r.chance(20)) { w.end = UINT64_MAX; t += "-"; } else if (r.chance(20)) { w.startOrSingleValue = 0; t = "-" + std::to_string(w.end); } else t += "-" + std::to_string(w.end); }
        if (has) ch.add("ExposureTime").val(t);
        checks.push_back([=](const ChP& c) { RangeOrSingleValue<uint64_t> g{}; VH_EQ(c->TryGetExposureTime(&g), has, "channel-info", "ExposureTime " + t); if (has) VH_CHECK(g.singleValue == w.singleValue && g.startOrSingleValue == w.startOrSingleValue && (g.singleValue || g.end == w.end), "channel-info", "ExposureTime " + t + ": value"); });
    }
    D(ch, me, &Ch::TryGetDepthOfFocus, "DepthOfFocus"); D(ch, me, &Ch::TryGetSectionThickness, "SectionThickness");
    S(ch, me, &Ch::TryGetReflector, "Reflector"); S(ch, me, &Ch::TryGetCondenserContrast, "CondenserContrast"); D(ch, me, &Ch::TryGetNACondenser, "NACondenser");
    {
        auto g = [](const ChP& c) { return c->GetDetectorSettings(); }; tag = "DetectorSettings/";
        if (N* p = group(ch, g, "DetectorSettings"))
        {
            using O = IDimensionChannelDetectorSettings; Ref(*p, g, &O::TryGetDetectorRef, "Detector");
            { using E = ChannelDetectorSettingsBinning; En<E>(*p, g, &O::TryGetBinning, "Binning", { {"1x1",E::_1x1},{"2x2",E::_2x2},{"4x4",E::_4x4},{"8x8",E::_8x8},EV(E,Other) }); }
            { using E = ChannelDetectorSettingsShutter; En<E>(*p, g, &O::TryGetShutter, "Shutter", { EV(E,Rolling),EV(E,Global),EV(E,Other) }); }
            D(*p, g, &O::TryGetPhotonConversionFactor, "PhotonConversionFactor"); D(*p, g, &O::TryGetGain, "Gain"); D(*p, g, &O::TryGetDigitalGain, "DigitalGain"); D(*p, g, &O::TryGetOffset, "Offset"); D(*p, g, &O::TryGetEMGain, "EMGain"); D(*p, g, &O::TryGetVoltage, "Voltage"); D(*p, g, &O::TryGetReadOutRate, "ReadOutRate");
            B(*p, g, &O::TryGetUseBrightnessContrastCorrection, "UseBrightnessContrastCorrection"); D(*p, g, &O::TryGetPixelMaximum, "PixelMaximum"); D(*p, g, &O::TryGetPixelAccuracy, "PixelAccuracy"); D(*p, g, &O::TryGetPixelScaleFactor, "PixelScaleFactor");
            { using E = ChannelDetectorCameraProcessingMode; En<E>(*p, g, &O::TryGetCameraProcessingMode, "CameraProcessingMode", { EV(E,None),EV(E,Widefield),EV(E,Sectioned),EV(E,RawDataMode) }); }
        }
        tag = "";
    }
    {
        auto gs = [](const ChP& c) { return c->GetLightSourcesSettings(); };
        if (N* ps = group(ch, gs, "LightSourcesSettings"))
        {
            int cnt = r.range(0, 3); checks.push_back([=](const ChP& c) { VH_EQ(gs(c)->GetLightSourceSettingCount(), cnt, "channel-info", string("LightSourceSettings count")); });
            for (int i = 0; i < cnt; ++i)
            {
                auto g = [=](const ChP& c) { return gs(c)->GetLightSourceSetting(i); }; N& p = ps->add("LightSourceSettings"); tag = "LightSource/"; using O = IDimensionChannelLightSourcesSetting;
                Ref(p, g, &O::TryGetLightSourceRef, "LightSource"); D(p, g, &O::TryGetWavelength, "Wavelength"); D(p, g, &O::TryGetAttenuation, "Attenuation"); D(p, g, &O::TryGetTransmission, "Transmission"); S(p, g, &O::TryGetIntensity, "Intensity"); D(p, g, &O::TryGetFlashDuration, "FlashDuration"); D(p, g, &O::TryGetTIRFAngle, "TIRFAngle"); D(p, g, &O::TryGetTIRFDepthOfPenetration, "TIRFDepthOfPenetration"); B(p, g, &O::TryGetIsTIRFCalibrated, "IsTIRFCalibrated"); B(p, g, &O::TryGetIsNlo, "IsNlo");
                bool pol = on(); std::vector<bool> hasS(4); std::vector<double> vS(4); if (pol) { N& q = p.add("Polarization"); for (int k = 0; k < 4; ++k) { hasS[(size_t)k] = on(); vS[(size_t)k] = anyDouble(r); if (hasS[(size_t)k]) q.add(W("StokesParameter" + std::to_string(k + 1))).val(dblText(r, vS[(size_t)k])); } }
                checks.push_back([=](const ChP& c) { decltype(std::declval<O>().TryGetPolarization(nullptr)) b; std::remove_pointer_t<std::decay_t<O::Polarization*>> q; b = g(c)->TryGetPolarization(&q); VH_EQ(b, pol, "channel-info", string("Polarization")); if (pol) for (size_t k = 0; k < 4; ++k) VH_CHECK(q.stokesParameterValid[k] == hasS[k] && (!hasS[k] || q.stokesParameter[k] == vS[k]), "channel-info", "StokesParameter" + std::to_string(k + 1)); });
                tag = "";
            }
        }
    }
    {
        auto g = [](const ChP& c) { return c->GetLightPath(); }; tag = "LightPath/"; using O = IDimensionChannelLightPath;
        if (N* p = group(ch, g, "LightPath")) { Ref(*p, g, &O::TryGetExcitationFilterRef, "ExcitationFilter"); Ref(*p, g, &O::TryGetDichroicFilterRef, "Dichroic"); Ref(*p, g, &O::TryGetEmissionFilterRef, "EmissionFilter"); }
        tag = "";
    }
    {
        auto g = [](const ChP& c) { return c->GetLaserScanInfo(); }; tag = "LaserScanInfo/"; using O = IDimensionChannelLaserScanInfo;
        if (N* q = group(ch, g, "LaserScanInfo"))
        {
            N& p = *q; D(p, g, &O::TryGetPixelTime, "PixelTime"); D(p, g, &O::TryGetLineTime, "LineTime"); D(p, g, &O::TryGetFrameTime, "FrameTime"); I(p, g, &O::TryGetAveraging, "Averaging");
            { using E = DimensionChannelLaserScanScanningMode; En<E>(p, g, &O::TryGetScanningMode, "ScanningMode", { EV(E,Frame),EV(E,FastFrame),EV(E,LineSequential),EV(E,Line),EV(E,Spot),EV(E,Other) }); }
            D(p, g, &O::TryGetSampleRotation, "SampleRotation"); D(p, g, &O::TryGetSampleOffsetX, "SampleOffsetX"); D(p, g, &O::TryGetSampleOffsetY, "SampleOffsetY");
            { using E = DimensionChannelLaserScanScanDirection; En<E>(p, g, &O::TryGetScanDirection, "ScanDirection", { EV(E,Bidirectional),EV(E,Unidirectional) }); }
            D(p, g, &O::TryGetZoomX, "ZoomX"); D(p, g, &O::TryGetZoomY, "ZoomY"); D(p, g, &O::TryGetZoomZ, "ZoomZ"); D(p, g, &O::TryGetCropOffset, "CropOffset"); D(p, g, &O::TryGetLaserAttenuatorMeas, "LaserAttenuatorMeas"); D(p, g, &O::TryGetLaserBlanking, "LaserBlanking"); D(p, g, &O::TryGetLaserAttenuatorBleach, "LaserAttenuatorBleach"); U(p, g, &O::TryGetLineStep, "LineStep"); I(p, g, &O::TryGetScanSpeed, "ScanSpeed");
            { using E = DimensionChannelLaserScanAveragingMethod; En<E>(p, g, &O::TryGetAveragingMethod, "AveragingMethod", { EV(E,Mean),EV(E,Sum),EV(E,Other) }); }
            { using E = DimensionChannelLaserScanAveragingMode; En<E>(p, g, &O::TryGetAveragingMode, "AveragingMode", { EV(E,Frame),EV(E,Line),EV(E,Other) }); }
            { using E = DimensionChannelLaserScanLaserAttenuatorState; En<E>(p, g, &O::TryGetLaserAttenuatorState, "LaserAttenuatorState", { EV(E,On),EV(E,Off) }); }
        }
        tag = "";
    }
    {
        auto g = [](const ChP& c) { return c->GetSPIMIlluminationSettings(); }; tag = "SPIMIllumination/"; using O = IDimensionChannelSPIMIlluminationSettings;
        if (N* q = group(ch, g, "SPIMIlluminationSettings"))
        {
            N& p = *q; D(p, g, &O::TryGetNALightSheet, "NALightSheet"); { using E = DimensionChannelSPIMIlluminationSettingsBeamType; En<E>(p, g, &O::TryGetBeamType, "BeamType", { EV(E,Gauss),EV(E,Bessel),EV(E,Other) }); } Ref(p, g, &O::TryGetCylinderLensRef, "CylinderLensRef");
            auto g1 = [=](const ChP& c) { return g(c)->GetIlluminationObjectiveSettings(); };
            if (N* s = group(p, g1, "IlluminationObjectiveSettings"))
            {
                using P = IInstrumentObjectiveSettings; Ref(*s, g1, &P::TryGetObjectiveRef, "ObjectiveRef"); { using E = P::Medium; En<E>(*s, g1, &P::TryGetMedium, "Medium", { EV(E,Air),EV(E,Oil),EV(E,Water),EV(E,Glycerol),EV(E,Other) }); }
                D(*s, g1, &P::TryGetCorrectionCollar, "CorrectionCollar"); D(*s, g1, &P::TryGetCorrectionCollar2, "CorrectionCollar2"); S(*s, g1, &P::TryGetCorrectionControllerMode, "CorrectionControllerMode"); D(*s, g1, &P::TryGetCorrectionControllerBottomThickness, "CorrectionControllerBottomThickness"); D(*s, g1, &P::TryGetCorrectionControllerImagingDepth, "CorrectionControllerImagingDepth"); D(*s, g1, &P::TryGetRefractiveIndex, "RefractiveIndex");
            }
            auto g2 = [=](const ChP& c) { return g(c)->GetResonanceScannerSettings(); }; if (N* s = group(p, g2, "ResonanceScannerSettings")) D(*s, g2, &ISPIMIlluminationResonanceScannerSettings::TryGetAmplitude, "Amplitude");
            auto g3 = [=](const ChP& c) { return g(c)->GetGalvoScannerSettings(); }; if (N* s = group(p, g3, "GalvoScannerSettings")) { using P = ISPIMIlluminationGalvoScannerSettings; D(*s, g3, &P::TryGetAmplitudeYScan, "AmplitudeYScan"); D(*s, g3, &P::TryGetFrequency, "Frequency"); D(*s, g3, &P::TryGetOffset1Left, "Offset1Left"); D(*s, g3, &P::TryGetOffset1Right, "Offset1Right"); D(*s, g3, &P::TryGetOffset2Left, "Offset2Left"); D(*s, g3, &P::TryGetOffset2Right, "Offset2Right"); }
        }
        tag = "";
    }
    { auto g = [](const ChP& c) { return c->GetSPIMDetectionSettings(); }; tag = "SPIMDetection/"; if (N* p = group(ch, g, "SPIMDetectionSettings")) D(*p, g, &IDimensionChannelSPIMDetectionSettings::TryGetNADetection, "NADetection"); tag = ""; }
    {
        auto g = [](const ChP& c) { return c->GetSIMSettings(); }; tag = "SIM/"; using O = IDimensionChannelSIMSettings;
        if (N* p = group(ch, g, "SIMSettings")) { Ref(*p, g, &O::TryGetSIMDeviceRef, "SIMDeviceRef"); D(*p, g, &O::TryGetGratingPeriod, "GratingPeriod"); D(*p, g, &O::TryGetGratingRotation, "GratingRotation"); S(*p, g, &O::TryGetGridDescription, "GridDescription"); S(*p, g, &O::TryGetReflector, "Reflector"); Ref(*p, g, &O::TryGetFilterSetRef, "FilterSetRef"); D(*p, g, &O::TryGetDiffractionEfficiency1, "DiffractionEfficiency1"); D(*p, g, &O::TryGetDiffractionEfficiency2, "DiffractionEfficiency2"); D(*p, g, &O::TryGetDiffractionEfficiency3, "DiffractionEfficiency3"); }
        tag = "";
    }
    { auto g = [](const ChP& c) { return c->GetPolarizingSettings(); }; tag = "Polarizing/"; using O = IDimensionChannelPolarizingSettings; if (N* p = group(ch, g, "PolarizingSettings")) { D(*p, g, &O::TryGetPolarizerAngle, "PolarizerAngle"); D(*p, g, &O::TryGetAnalyzerAngle, "AnalyzerAngle"); } tag = ""; }
    {
        auto g = [](const ChP& c) { return c->GetAiryscanSettings(); }; tag = "Airyscan/"; using O = IDimensionChannelAiryscanSettings;
        if (N* q = group(ch, g, "AiryscanSettings"))
        {
            N& p = *q; { using E = O::Mode; En<E>(p, g, &O::TryGetMode, "Mode", { EV(E,SuperResolution),EV(E,VirtualPinhole),EV(E,MultiBeam),EV(E,Off) }); }
            D(p, g, &O::TryGetVirtualPinholeSize, "VirtualPinholeSize"); D(p, g, &O::TryGetMagnification, "Magnification"); D(p, g, &O::TryGetTransformationXX, "TransformationXX"); D(p, g, &O::TryGetTransformationXY, "TransformationXY"); D(p, g, &O::TryGetTransformationYX, "TransformationYX"); D(p, g, &O::TryGetTransformationYY, "TransformationYY");
            auto gf = [=](const ChP& c) { return g(c)->GetFastAiryScanSettings(); };
            if (N* f = group(p, gf, "FastAiryScanSettings"))
            {
                using P = IFastAiryScanSettings;
                for (int k = 0; k < 2; ++k)
                {
                    const char* nm = k ? "IlluminationLine" : "IlluminationLinePixels"; bool has = on(); double x = anyDouble(r, true), y = anyDouble(r, true); if (has) f->add(nm).val(dblText(r, x) + r.pick({ string(" "), string("  "), string("\n ") }) + dblText(r, y)); string what = nm;
                    checks.push_back([=](const ChP& c) { P::Vector v{}; bool b = k ? gf(c)->TryGetIlluminationLine(&v) : gf(c)->TryGetIlluminationLinePixels(&v); VH_EQ(b, has, "channel-info", what); if (has) VH_CHECK(v.x == x && v.y == y, "channel-info", what + ": value"); });
                }
                bool has = on(); std::vector<int> fm; string t; for (int i = r.range(1, 40); i > 0; --i) { fm.push_back(r.pick({ r.range(0, 40), r.range(INT_MIN, INT_MAX) })); if (!t.empty()) t += r.pick({ string(" "), string("  "), string("\t") }); t += std::to_string(fm.back()); } if (has) f->add("FiberMapping").val(t);
                checks.push_back([=](const ChP& c) { std::vector<int> v; VH_EQ(gf(c)->TryGetFiberMapping(&v), has, "channel-info", string("FiberMapping")); if (has) VH_CHECK(v == fm, "channel-info", "FiberMapping value for '" + t + "'"); });
                D(*f, gf, &P::TryGetEffectiveNAinX, "EffectiveNA_in_x"); D(*f, gf, &P::TryGetEffectiveNAinY, "EffectiveNA_in_y");
            }
        }
        tag = "";
    }
    {
        auto g = [](const ChP& c) { return c->GetRatio(); }; tag = "Ratio/"; using O = IDimensionChannelRatio;
        if (N* q = group(ch, g, "Ratio"))
        {
            N& p = *q; { using E = O::Type; En<E>(p, g, &O::TryGetType, "Type", { EV(E,NoOnlineCalculation),EV(E,OnlineRatio),EV(E,OnlineSubtraction),EV(E,OnlineSubtractionRatio),EV(E,OnlineHillFunction),EV(E,OnlineReferenceRatio),EV(E,OnlineLinearUnmixing) }); }
            D(p, g, &O::TryGetConst1, "Const1"); D(p, g, &O::TryGetConst2, "Const2"); D(p, g, &O::TryGetConst3, "Const3"); D(p, g, &O::TryGetConst4, "Const4"); D(p, g, &O::TryGetConst5, "Const5"); D(p, g, &O::TryGetConst6, "Const6");
            for (int k = 1; k <= 2; ++k) { bool has = on(); std::vector<wstring> ids; if (has) { N& s = p.add(W("Source" + std::to_string(k))); for (int i = r.range(1, 4); i > 0; --i) { ids.push_back(anyText(r)); s.add("ChannelRef").attr(L"Id", ids.back()); } } checks.push_back([=](const ChP& c) { std::vector<wstring> v; VH_EQ(k == 1 ? g(c)->TryGetSource1(&v) : g(c)->TryGetSource2(&v), has, "channel-info", "Source" + std::to_string(k)); if (has) VH_CHECK(v == ids, "channel-info", "Source" + std::to_string(k) + ": value"); }); }
        }
    }
#undef EV
}

static const std::vector<std::pair<DimensionIndex, char>>& dims() { static const std::vector<std::pair<DimensionIndex, char>> d{ { DimensionIndex::Z, 'Z' }, { DimensionIndex::C, 'C' }, { DimensionIndex::T, 'T' }, { DimensionIndex::R, 'R' }, { DimensionIndex::S, 'S' }, { DimensionIndex::I, 'I' }, { DimensionIndex::H, 'H' }, { DimensionIndex::V, 'V' }, { DimensionIndex::B, 'B' } }; return d; }

static XmlDateTime anyDate(Rng& r)
{
    XmlDateTime d; d.Clear(); d.year = r.chance(50) ? r.range(1900, 2100) : r.chance(50) ? r.range(-9999, 9999) : r.pick({ 0, 1, -1, 9999, -9999, 999, -999, 4, 2000, 1900, 2024 }); d.mon = r.range(1, 12);
    int md = d.mon == 2 ? (((d.year % 4 == 0 && d.year % 100 != 0) || d.year % 400 == 0) ? 29 : 28) : (d.mon == 4 || d.mon == 6 || d.mon == 9 || d.mon == 11) ? 30 : 31;
    d.mday = r.chance(20) ? md : r.range(1, md); d.hour = r.range(0, 23); d.min = r.range(0, 59); d.sec = r.range(0, 59);
    switch (r.below(3)) { case 0: d.isUTC = true; break; case 1: d.offsetHours = r.chance(30) ? r.pick({ 0, 1, 9, 10, 23, -1, -9, -10, -23 }) : r.range(-23, 23); d.offsetMinutes = r.pick({ 0, 30, 45, r.range(0, 59) }); break; default: break; }
    return d;
}
static string dateText(const XmlDateTime& d, const string& fraction = "")
{
    char b[100]; snprintf(b, sizeof(b), "%s%04d-%02d-%02dT%02d:%02d:%02d", d.year < 0 ? "-" : "", std::abs(d.year), d.mon, d.mday, d.hour, d.min, d.sec); string s = b + fraction;
    if (d.isUTC) s += "Z"; else if (d.offsetHours > -24) { snprintf(b, sizeof(b), "%c%02d:%02d", d.offsetHours < 0 ? '-' : '+', std::abs(d.offsetHours), d.offsetMinutes); s += b; } return s;
}
static bool sameDate(const XmlDateTime& a, const XmlDateTime& b) { return a.sec == b.sec && a.min == b.min && a.hour == b.hour && a.mday == b.mday && a.mon == b.mon && a.year == b.year && a.isUTC == b.isUTC && a.HasTimeZoneOffset() == b.HasTimeZoneOffset() && (!a.HasTimeZoneOffset() || (a.offsetHours == b.offsetHours && a.offsetMinutes == b.offsetMinutes)); }

static void structured(Rng& r)
{
    using namespace libCZI; N root(L"ImageDocument"); std::vector<std::function<void(const std::shared_ptr<ICziMultiDimensionDocumentInfo>&)>> checks;
    if (r.chance(90)) root.at("Metadata");
    // general document info
    {
        struct F { const char* n; wstring GeneralDocumentInfo::* v; bool GeneralDocumentInfo::* ok; }; static const F f[] = { { "Name", &GeneralDocumentInfo::name, &GeneralDocumentInfo::name_valid }, { "Title", &GeneralDocumentInfo::title, &GeneralDocumentInfo::title_valid }, { "UserName", &GeneralDocumentInfo::userName, &GeneralDocumentInfo::userName_valid }, { "Description", &GeneralDocumentInfo::description, &GeneralDocumentInfo::description_valid }, { "Comment", &GeneralDocumentInfo::comment, &GeneralDocumentInfo::comment_valid }, { "Keywords", &GeneralDocumentInfo::keywords, &GeneralDocumentInfo::keywords_valid }, { "CreationDate", &GeneralDocumentInfo::creationDateTime, &GeneralDocumentInfo::creationDateTime_valid } };
        bool sect = r.chance(70);
        for (auto& e : f) { bool has = sect && r.chance(60); wstring v = anyText(r); if (has) root.at(string("Metadata/Information/Document/") + e.n).val(v); F q = e; checks.push_back([=](const std::shared_ptr<ICziMultiDimensionDocumentInfo>& i) { auto g = i->GetGeneralDocumentInfo(); VH_EQ(g.*q.ok, has, "document-info", string(q.n) + " valid"); if (has) VH_CHECK(g.*q.v == v, "document-info", string(q.n) + ": '" + show(g.*q.v) + "' instead of '" + show(v) + "'"); ev("document-info"); }); }
        bool has = sect && r.chance(60); int v = r.range(-5, 10); if (has) root.at("Metadata/Information/Document/Rating").val(std::to_string(v)); checks.push_back([=](const std::shared_ptr<ICziMultiDimensionDocumentInfo>& i) { auto g = i->GetGeneralDocumentInfo(); VH_EQ(g.rating_valid, has, "document-info", string("Rating valid")); if (has) VH_EQ(g.rating, v, "document-info", string("Rating")); });
    }
    // scaling
    {
        bool sect = r.chance(70); struct E { bool has, unit; double v; wstring u; }; std::vector<E> es; N* items = sect ? &root.at("Metadata/Scaling/Items") : nullptr;
        for (char d : { 'X', 'Y', 'Z' }) { E e{ sect && r.chance(70), sect && r.chance(50), anyDouble(r), anyText(r) }; es.push_back(e); if (e.has || e.unit) { N& n = items->add("Distance"); n.attr(L"Id", wstring(1, (wchar_t)d)); if (e.has) n.add("Value").val(dblText(r, e.v)); if (e.unit) n.add("DefaultUnitFormat").val(e.u); } }
        if (sect && r.chance(30)) { N& n = items->add("Distance"); n.attr(L"Id", L"W"); n.add("Value").val(string("7")); }
        checks.push_back([=](const std::shared_ptr<ICziMultiDimensionDocumentInfo>& i)
            {
                auto a = i->GetScalingInfo(); auto b = i->GetScalingInfoEx(); const char n[] = "XYZ";
                for (int k = 0; k < 3; ++k) { char d = n[k]; const E& e = es[(size_t)k]; VH_EQ(a.IsScaleValid(d), e.has, "scaling", string("scaling valid ") + d); VH_EQ(b.IsScaleValid(d), e.has, "scaling", string("scalingEx valid ") + d); if (e.has) { VH_CHECK(a.GetScale(d) == e.v, "scaling", string("scaling ") + d); VH_CHECK(b.GetScale(d) == e.v, "scaling", string("scalingEx ") + d); ev("scaling"); } VH_CHECK(b.GetDefaultUnitFormat(d) == (e.unit ? e.u : wstring()), "scaling", string("unit ") + d); }
            });
    }
    // dimensions
    {
        std::map<char, std::pair<int, int>> st; bool sect = r.chance(85); std::map<char, std::pair<bool, bool>> ex;
        if (sect) { N& im = root.at("Metadata/Information/Image"); im.add("SizeX").val(string("100")); for (auto& d : dims()) { bool a = r.chance(35), b = r.chance(45); int s = r.pick({ 0, 1, -1, r.range(-50, 50), INT_MAX, INT_MIN }), z = r.pick({ 1, 2, 0, r.range(1, 100), INT_MAX }); if (a) im.add(W(string("Start") + d.second)).val(std::to_string(s)); if (b) im.add(W(string("Size") + d.second)).val(std::to_string(z)); if (a || b) { st[d.second] = { a ? s : 0, b ? z : 1 }; ex[d.second] = { a, b }; } } }
        checks.push_back([=](const std::shared_ptr<ICziMultiDimensionDocumentInfo>& i)
            {
                std::set<char> got; i->EnumDimensions([&](DimensionIndex d) { for (auto& e : dims()) if (e.first == d) { VH_CHECK(got.insert(e.second).second, "dimension-info", "dimension enumerated twice"); } return true; });
                for (auto& d : dims())
                {
                    bool has = st.count(d.second) != 0; auto di = i->GetDimensionInfo(d.first); VH_EQ(di != nullptr, has, "dimension-info", string("dimension ") + d.second + " present"); VH_EQ(got.count(d.second) != 0, has, "dimension-info", string("dimension ") + d.second + " enumerated"); if (!has) continue;
                    int s, e; bool bs, be; di->GetInterval(&s, &e); di->GetIntervalIsExplicitlyStated(&bs, &be); int64_t end = (int64_t)st.at(d.second).first + st.at(d.second).second; end = std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, end));
                    VH_EQ(s, st.at(d.second).first, "dimension-info", string("start of ") + d.second); VH_EQ((int64_t)e, end, "dimension-info", string("end of ") + d.second); VH_EQ(bs, ex.at(d.second).first, "dimension-info", string("start stated ") + d.second); VH_EQ(be, ex.at(d.second).second, "dimension-info", string("end stated ") + d.second); VH_CHECK(di->GetDimension() == d.first, "dimension-info", "dimension"); ev("dimension");
                }
                if (got.size() > 1) { int c = 0; i->EnumDimensions([&](DimensionIndex) { ++c; return false; }); VH_EQ(c, 1, "dimension-info", string("enumeration does not stop")); }
            });
    }
    // Z and T
    for (char dim : { 'Z', 'T' })
    {
        bool sect = r.chance(70); string base = string("Metadata/Information/Image/Dimensions/") + dim; if (sect) root.at(base);
        int def = sect ? (int)r.below(3) : 0; double s = anyDouble(r), inc = anyDouble(r); bool hs = r.chance(80), hi = r.chance(80); std::vector<double> lst; string lt; for (int k = r.range(1, 30); k > 0; --k) { lst.push_back(anyDouble(r, true)); if (!lt.empty()) lt += ' '; lt += dblText(r, lst.back()); }
        if (def == 1) { root.at(base + "/Positions/Interval"); if (hs) root.at(base + "/Positions/Interval/Start").val(dblText(r, s)); if (hi) root.at(base + "/Positions/Interval/Increment").val(dblText(r, inc)); }
        if (def == 2) root.at(base + "/Positions/List/Offsets").val(lt);
        auto common = [=](bool i1, bool l1, double a, double b, const std::vector<double>& v) { VH_EQ(i1, def == 1, "axis-info", string("interval for ") + dim); if (i1) VH_CHECK((!hs || a == s) && (!hi || b == inc), "axis-info", string("interval values for ") + dim); VH_EQ(l1, def == 2, "axis-info", string("list for ") + dim); if (l1) VH_CHECK(v == lst, "axis-info", string("list values for ") + dim + " from '" + lt + "'"); ev("axis"); };
        if (dim == 'Z')
        {
            bool p = sect && r.chance(60), h = sect && r.chance(60), x = sect && r.chance(60), m = sect && r.chance(60), v = sect && r.chance(60); double pos = anyDouble(r), sp = anyDouble(r, true); int hv = (int)r.below(3), xv = (int)r.below(3), mv = (int)r.below(2);
            if (p) root.at(base + "/StartPosition").val(dblText(r, pos)); if (h) root.at(base + "/XYZHandedness").val(string(hv == 0 ? "LeftHanded" : hv == 1 ? "RightHanded" : "Undefined")); if (x) root.at(base + "/ZAxisDirection").val(string(xv == 0 ? "FromSpecimenToObjective" : xv == 1 ? "FromObjectiveToSpecimen" : "Undefined")); if (m) root.at(base + "/ZDriveMode").val(string(mv == 0 ? "Continuous" : "Step")); if (v) root.at(base + "/ZDriveSpeed").val(dblText(r, sp));
            checks.push_back([=](const std::shared_ptr<ICziMultiDimensionDocumentInfo>& i)
                {
                    auto z = i->GetDimensionZInfo(); VH_EQ(z != nullptr, sect, "axis-info", string("Z info present")); if (!z) return; double a = 0, b = 0; std::vector<double> l; bool i1 = z->TryGetIntervalDefinition(&a, &b), l1 = z->TryGetPositionList(&l); common(i1, l1, a, b, l);
                    double d; VH_EQ(z->TryGetReferencePosition(&d), p, "axis-info", string("start position")); if (p) VH_CHECK(d == pos, "axis-info", "start position value");
                    IDimensionZInfo::XyzHandedness e1; VH_EQ(z->TryGetXyzHandedness(&e1), h, "axis-info", string("handedness")); if (h) VH_CHECK(e1 == (hv == 0 ? IDimensionZInfo::XyzHandedness::LeftHanded : hv == 1 ? IDimensionZInfo::XyzHandedness::RightHanded : IDimensionZInfo::XyzHandedness::Undefined), "axis-info", "handedness value");
                    IDimensionZInfo::ZaxisDirection e2; VH_EQ(z->TryGetZAxisDirection(&e2), x, "axis-info", string("z-axis")); if (x) VH_CHECK(e2 == (xv == 0 ? IDimensionZInfo::ZaxisDirection::FromSpecimenToObjective : xv == 1 ? IDimensionZInfo::ZaxisDirection::FromObjectiveToSpecimen : IDimensionZInfo::ZaxisDirection::Undefined), "axis-info", "z-axis value");
                    IDimensionZInfo::ZDriveMode e3; VH_EQ(z->TryGetZDriveMode(&e3), m, "axis-info", string("z-drive mode")); if (m) VH_CHECK(e3 == (mv == 0 ? IDimensionZInfo::ZDriveMode::Continuous : IDimensionZInfo::ZDriveMode::Step), "axis-info", "z-drive mode value");
                    VH_EQ(z->TryZDriveSpeed(&d), v, "axis-info", string("z-drive speed")); if (v) VH_CHECK(d == sp, "axis-info", "z-drive speed value");
                });
        }
        else
        {
            bool p = sect && r.chance(60); XmlDateTime dt = anyDate(r); if (dt.HasTimeZoneOffset() && dt.offsetHours == 0 && dt.offsetMinutes != 0) dt.offsetMinutes = 0; string t = dateText(dt); if (p) root.at(base + "/StartTime").val(t);
            checks.push_back([=](const std::shared_ptr<ICziMultiDimensionDocumentInfo>& i) { auto z = i->GetDimensionTInfo(); VH_EQ(z != nullptr, sect, "axis-info", string("T info present")); if (!z) return; double a = 0, b = 0; std::vector<double> l; bool i1 = z->TryGetIntervalDefinition(&a, &b), l1 = z->TryGetOffsetsList(&l); common(i1, l1, a, b, l); XmlDateTime g; VH_EQ(z->TryGetStartTime(&g), p, "axis-info", "start time from '" + t + "'"); if (p) VH_CHECK(sameDate(g, dt), "axis-info", "start time value from '" + t + "'"); });
        }
    }
    // channels
    {
        bool sect = r.chance(80); int cnt = sect ? r.range(0, 4) : 0; std::vector<std::vector<std::function<void(const ChP&)>>> cc; if (sect) root.at("Metadata/Information/Image/Dimensions/Channels");
        for (int c = 0; c < cnt; ++c) { ChannelGen g(r); g.make(root.at("Metadata/Information/Image/Dimensions/Channels").add("Channel")); cc.push_back(g.checks); }
        checks.push_back([=](const std::shared_ptr<ICziMultiDimensionDocumentInfo>& i) { auto ci = i->GetDimensionChannelsInfo(); VH_EQ(ci != nullptr, sect, "channel-info", string("channel info present")); if (!ci) return; VH_EQ(ci->GetChannelCount(), cnt, "channel-info", string("channel count")); for (int c = 0; c < cnt; ++c) { auto ch = ci->GetChannel(c); for (auto& f : cc[(size_t)c]) f(ch); ev("channel"); } });
    }
    shuffleTree(r, root); string xml = document(r, root); ctx().currentDesc = "XML " + xml.substr(0, 3000); ctx().seenHash(hash64(xml));
    auto m = r.chance(20) ? viaFile(r, xml) : parse(xml);
    auto top = m->GetChildNodeReadonly("ImageDocument"); VH_CHECK(top != nullptr, "generic-read", "no root"); compare(*top, root, "XML", "generic-read");
    { NP rp(&root, [](N*) {}); lookups(r, *m, rp, "ImageDocument/", "generic-read", 3); }
    if (r.chance(30)) compare(*parse(m->GetXml())->GetChildNodeReadonly("ImageDocument"), root, "GetXml", "generic-read");
    auto info = m->GetDocumentInfo(); if (r.chance(30)) { m.reset(); top.reset(); } for (auto& c : checks) c(info); if (r.chance(20)) for (auto& c : checks) c(info);
    if (r.chance(15)) // the builder changes an existing document
    {
        auto b = CreateMetadataBuilderFromXml(xml); std::vector<N*> leaves; std::function<void(N&, std::vector<Step>)> walk; struct L { N* n; string p; }; std::vector<L> ls;
        walk = [&](N& n, std::vector<Step> p) { for (size_t i = 0; i < n.kids.size(); ++i) { int k = 0; for (size_t q = 0; q < i; ++q) if (n.kids[q]->name == n.kids[i]->name) ++k; auto pp = p; Step s; s.name = n.kids[i]->name; s.index = k; pp.push_back(s); if (n.kids[i]->kids.empty()) ls.push_back({ n.kids[i].get(), pathText(pp) }); else walk(*n.kids[i], pp); } }; walk(root, {});
        for (int k = 0; k < 5 && !ls.empty(); ++k) { auto& l = ls[(size_t)r.below(ls.size())]; wstring v = anyText(r); auto x = b->GetRootNode()->GetChildNode(l.p.c_str()); VH_CHECK(x != nullptr, "edit", "path '" + l.p + "' not found"); x->SetValue(v.c_str()); l.n->val(v); }
        compare(*b->GetRootNode(), root, "edited", "edit"); compare(*parse(b->GetXml(r.chance(50)))->GetChildNodeReadonly("ImageDocument"), root, "edited, read", "edit"); ev("edited");
    }
    ev("structured-document");
}

// ------------------------------------------------------------------------- (b) prepared information
static std::shared_ptr<IXmlNodeRead> must(const std::shared_ptr<libCZI::ICziMetadata>& m, const string& p) { auto n = m->GetChildNodeReadonly(("ImageDocument/Metadata/" + p).c_str()); VH_CHECK(n != nullptr, "written-info", "'" + p + "' is missing"); return n; }
static void wantDouble(const std::shared_ptr<libCZI::ICziMetadata>& m, const string& p, double v) { double d = 0; VH_CHECK(must(m, p)->TryGetValueAsDouble(&d) && d == v, "written-info", p + " reads " + std::to_string(d)); ev("written"); }
static void wantInt(const std::shared_ptr<libCZI::ICziMetadata>& m, const string& p, int v) { int32_t d = 0; VH_CHECK(must(m, p)->TryGetValueAsInt32(&d) && d == v, "written-info", p + " reads " + std::to_string(d) + " instead of " + std::to_string(v)); ev("written"); }
static void wantText(const std::shared_ptr<libCZI::ICziMetadata>& m, const string& p, const wstring& v) { wstring d; VH_CHECK(must(m, p)->TryGetValue(&d) && d == v, "written-info", p + " reads '" + show(d) + "' instead of '" + show(v) + "'"); ev("written"); }
static void absent(const std::shared_ptr<libCZI::ICziMetadata>& m, const string& p) { VH_CHECK(m->GetChildNodeReadonly(("ImageDocument/Metadata/" + p).c_str()) == nullptr, "written-info", "'" + p + "' is there but was not written"); }

static void writers(Rng& r)
{
    using namespace libCZI; auto b = CreateMetadataBuilder(); std::vector<std::function<void(const std::shared_ptr<ICziMetadata>&)>> checks; string log; const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
    if (r.chance(70)) // general document info (possibly twice: the later one wins)
    {
        struct F { const char* n; wstring GeneralDocumentInfo::* v; bool GeneralDocumentInfo::* ok; }; static const F f[] = { { "Name", &GeneralDocumentInfo::name, &GeneralDocumentInfo::name_valid }, { "Title", &GeneralDocumentInfo::title, &GeneralDocumentInfo::title_valid }, { "UserName", &GeneralDocumentInfo::userName, &GeneralDocumentInfo::userName_valid }, { "Description", &GeneralDocumentInfo::description, &GeneralDocumentInfo::description_valid }, { "Comment", &GeneralDocumentInfo::comment, &GeneralDocumentInfo::comment_valid }, { "Keywords", &GeneralDocumentInfo::keywords, &GeneralDocumentInfo::keywords_valid }, { "CreationDate", &GeneralDocumentInfo::creationDateTime, &GeneralDocumentInfo::creationDateTime_valid } };
        GeneralDocumentInfo sum;
        for (int k = r.chance(30) ? 2 : 1; k > 0; --k)
        {
            GeneralDocumentInfo g; for (auto& e : f) if (r.chance(55)) { g.*e.v = anyText(r); g.*e.ok = true; sum.*e.v = g.*e.v; sum.*e.ok = true; } else if (r.chance(20)) g.*e.v = L"not valid";
            if (r.chance(30)) { wstring t = anyText(r); g.SetName(t); sum.name = t; sum.name_valid = true; } if (r.chance(20)) { XmlDateTime d = anyDate(r); g.SetCreationDate(&d); sum.creationDateTime = W(dateText(d)); sum.creationDateTime_valid = true; }
            if (r.chance(50)) { int v = r.range(-2, 7); g.SetRating(v); if (v >= 0) { sum.rating = v; sum.rating_valid = true; } } MetadataUtils::WriteGeneralDocumentInfo(b.get(), g);
        }
        checks.push_back([=](const std::shared_ptr<ICziMetadata>& m) { auto g = m->GetDocumentInfo()->GetGeneralDocumentInfo(); for (auto& e : f) { VH_EQ(g.*e.ok, sum.*e.ok, "written-info", string(e.n) + " valid"); if (sum.*e.ok) VH_CHECK(g.*e.v == sum.*e.v, "written-info", string(e.n) + ": '" + show(g.*e.v) + "' instead of '" + show(sum.*e.v) + "'"); } VH_EQ(g.rating_valid, sum.rating_valid, "written-info", string("rating valid")); if (sum.rating_valid) VH_EQ(g.rating, sum.rating, "written-info", string("rating")); ev("general-info"); }); log += "general ";
    }
    if (r.chance(70)) // scaling
    {
        ScalingInfoEx sum; const char n[] = "XYZ"; double ScalingInfo::* sc[] = { &ScalingInfo::scaleX, &ScalingInfo::scaleY, &ScalingInfo::scaleZ }; wstring ScalingInfoEx::* un[] = { &ScalingInfoEx::defaultUnitFormatX, &ScalingInfoEx::defaultUnitFormatY, &ScalingInfoEx::defaultUnitFormatZ };
        for (int k = r.chance(30) ? 2 : 1; k > 0; --k)
        {
            ScalingInfoEx s; bool ex = r.chance(60); for (int q = 0; q < 3; ++q) { if (r.chance(65)) { s.*sc[q] = anyDouble(r); sum.*sc[q] = s.*sc[q]; } else if (r.chance(30)) s.*sc[q] = inf; if (ex && r.chance(50)) { s.*un[q] = anyText(r); sum.*un[q] = s.*un[q]; } }
            if (ex) MetadataUtils::WriteScalingInfoEx(b.get(), s); else MetadataUtils::WriteScalingInfo(b.get(), s);
        }
        checks.push_back([=](const std::shared_ptr<ICziMetadata>& m) { auto a = m->GetDocumentInfo()->GetScalingInfo(); auto e = m->GetDocumentInfo()->GetScalingInfoEx(); for (int q = 0; q < 3; ++q) { char d = n[q]; VH_EQ(a.IsScaleValid(d), sum.IsScaleValid(d), "written-info", string("scaling valid ") + d); VH_EQ(e.IsScaleValid(d), sum.IsScaleValid(d), "written-info", string("scalingEx valid ") + d); if (sum.IsScaleValid(d)) VH_CHECK(a.GetScale(d) == sum.GetScale(d) && e.GetScale(d) == sum.GetScale(d), "written-info", string("scaling ") + d); VH_CHECK(e.GetDefaultUnitFormat(d) == sum.GetDefaultUnitFormat(d), "written-info", string("unit ") + d); } ev("scaling-info"); }); log += "scaling ";
    }
    if (r.chance(40)) { int w = r.range(INT_MIN, INT_MAX), h = r.range(0, 100000), mm = r.range(0, 5000); MetadataUtils::WriteImageSizeInformation(b.get(), w, h); MetadataUtils::WriteMIndexSizeInformation(b.get(), mm); checks.push_back([=](const std::shared_ptr<ICziMetadata>& m) { wantInt(m, "Information/Image/SizeX", w); wantInt(m, "Information/Image/SizeY", h); wantInt(m, "Information/Image/SizeM", mm); }); }
    else if (r.chance(60))
    {
        SubBlockStatistics st; st.Invalidate(); st.boundingBox = IntRect{ r.range(-100, 100), r.range(-100, 100), r.range(1, 100000), r.range(1, 100000) }; std::map<char, int> want; if (r.chance(50)) { st.minMindex = r.range(0, 10); st.maxMindex = st.minMindex + r.range(0, 100); }
        for (auto& d : dims()) if (r.chance(50)) { int s = r.range(-5, 10), z = r.range(1, 500); st.dimBounds.Set(d.first, s, z); want[d.second] = z; }
        MetadataUtils::WriteFillWithSubBlockStatistics(b.get(), st);
        checks.push_back([=](const std::shared_ptr<ICziMetadata>& m) { wantInt(m, "Information/Image/SizeX", st.boundingBox.w); wantInt(m, "Information/Image/SizeY", st.boundingBox.h); auto di = m->GetDocumentInfo(); for (auto& d : dims()) { string p = string("Information/Image/Size") + d.second; auto e = di->GetDimensionInfo(d.first); if (want.count(d.second)) { wantInt(m, p, want.at(d.second)); int s, z; VH_CHECK(e != nullptr, "written-info", p + ": no dimension info"); e->GetInterval(&s, &z); VH_EQ(z - s, want.at(d.second), "written-info", p + ": size"); } else { absent(m, p); VH_CHECK(e == nullptr, "written-info", p); } } if (st.IsMIndexValid()) wantInt(m, "Information/Image/SizeM", st.maxMindex - st.minMindex + 1); else absent(m, "Information/Image/SizeM"); }); log += "statistics ";
    }
    else if (r.chance(50)) { std::map<char, int> want; for (int k = r.range(1, 6); k > 0; --k) { auto& d = dims()[(size_t)r.below(9)]; int z = r.range(0, INT_MAX); MetadataUtils::WriteDimensionSize(b.get(), d.first, z); want[d.second] = z; } checks.push_back([=](const std::shared_ptr<ICziMetadata>& m) { for (auto& w : want) wantInt(m, string("Information/Image/Size") + w.first, w.second); }); }
    for (char dim : { 'T', 'Z' }) if (r.chance(50))
    {
        bool lst = r.chance(50), withStart = r.chance(60); XmlDateTime dt = anyDate(r); double pos = withStart ? anyDouble(r) : r.pick({ nan, inf }); std::vector<double> v; for (int k = r.range(1, 30); k > 0; --k) v.push_back(anyDouble(r, true)); double off = r.chance(75) ? anyDouble(r) : nan, inc = r.chance(75) ? anyDouble(r) : r.pick({ nan, -inf }); double stop = r.pick({ nan, inf, -inf });
        std::function<double(int)> fn = [&](int i) { return i < (int)v.size() ? v[(size_t)i] : stop; };
        if (dim == 'T') { if (lst) MetadataUtils::WriteDimInfoT_List(b.get(), withStart ? &dt : nullptr, fn); else MetadataUtils::WriteDimInfoT_Interval(b.get(), withStart ? &dt : nullptr, off, inc); }
        else { if (lst) MetadataUtils::WriteDimInfoZ_List(b.get(), pos, fn); else MetadataUtils::WriteDimInfoZ_Interval(b.get(), pos, off, inc); }
        checks.push_back([=](const std::shared_ptr<ICziMetadata>& m)
            {
                string p = string("Information/Dimensions/") + dim + "/"; 
                if (dim == 'T') { if (withStart) { wstring t; VH_CHECK(must(m, p + "StartTime")->TryGetValue(&t), "written-info", "no start time"); XmlDateTime g; VH_CHECK(XmlDateTime::TryParse(t.c_str(), &g) && sameDate(g, dt), "written-info", "start time '" + show(t) + "' for " + dateText(dt)); } else absent(m, p + "StartTime"); }
                else if (withStart) wantDouble(m, p + "StartPosition", pos); else absent(m, p + "StartPosition");
                if (lst) { wstring t; VH_CHECK(must(m, p + "Positions/List/Offsets")->TryGetValue(&t), "written-info", "no list"); std::vector<double> g; const wchar_t* q = t.c_str(); wchar_t* e; for (;;) { double d = wcstod(q, &e); if (e == q) break; g.push_back(d); q = e; } VH_CHECK(g == v, "written-info", p + ": the list reads '" + show(t) + "'"); }
                else { if (std::isfinite(off)) wantDouble(m, p + "Positions/Interval/Start", off); else absent(m, p + "Positions/Interval/Start"); if (std::isfinite(inc)) wantDouble(m, p + "Positions/Interval/Increment", inc); else absent(m, p + "Positions/Interval/Increment"); }
                ev("axis-written");
            }); log += string("axis") + dim + " ";
    }
    if (r.chance(60)) // custom key/value pairs
    {
        std::map<string, std::pair<string, std::function<void(const string&, const std::shared_ptr<IXmlNodeRead>&)>>> want;
        for (int k = r.range(1, 8); k > 0; --k)
        {
            string key = r.pick({ string("a"), string("Key"), string("_x1"), string("Ab_9"), string("some_long_key_name_0"), string("Value"), string("Z"), string("ab") });
            switch (r.below(5))
            {
            case 0: { int v = r.pick({ 0, -1, INT_MAX, INT_MIN, r.range(INT_MIN, INT_MAX) }); MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), key, CustomValueVariant((int32_t)v)); want[key] = { "Int32", [=](const string& w, const std::shared_ptr<IXmlNodeRead>& n) { int32_t q; VH_CHECK(n->TryGetValueAsInt32(&q) && q == v, "custom", w); } }; break; }
            case 1: { double v = anyDouble(r); MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), key, CustomValueVariant(v)); want[key] = { "Double", [=](const string& w, const std::shared_ptr<IXmlNodeRead>& n) { double q; VH_CHECK(n->TryGetValueAsDouble(&q) && q == v, "custom", w); } }; break; }
            case 2: { float v; do v = (float)anyDouble(r); while (!std::isfinite(v)); MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), key, CustomValueVariant(v)); want[key] = { "Float", [=](const string& w, const std::shared_ptr<IXmlNodeRead>& n) { float q; VH_CHECK(n->TryGetValueAsFloat(&q) && q == v, "custom", w); } }; break; }
            case 3: { bool v = r.chance(50); MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), key, CustomValueVariant(v)); want[key] = { "Boolean", [=](const string& w, const std::shared_ptr<IXmlNodeRead>& n) { bool q; VH_CHECK(n->TryGetValueAsBool(&q) && q == v, "custom", w); } }; break; }
            default: { wstring v = anyText(r); MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), key, CustomValueVariant(u8(v))); want[key] = { "String", [=](const string& w, const std::shared_ptr<IXmlNodeRead>& n) { wstring q; VH_CHECK(n->TryGetValue(&q) && q == v, "custom", w); } }; }
            }
        }
        string bad = r.pick({ string(""), string("1a"), string("a b"), string("a/b"), string("a[1]"), string("-a"), string("a<b") }); bool thrown = false; try { MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), bad, CustomValueVariant(true)); } catch (std::invalid_argument&) { thrown = true; } VH_CHECK(thrown, "custom", "the key '" + bad + "' is not refused");
        thrown = false; try { MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "a", CustomValueVariant()); } catch (std::invalid_argument&) { thrown = true; } VH_CHECK(thrown, "custom", "an invalid value is not refused");
        checks.push_back([=](const std::shared_ptr<ICziMetadata>& m) { auto base = must(m, "Information/CustomAttributes/KeyValue"); size_t c = 0; base->EnumChildren([&](std::shared_ptr<IXmlNodeRead>) { ++c; return true; }); VH_EQ(c, want.size(), "custom", string("number of keys")); for (auto& w : want) { auto n = must(m, "Information/CustomAttributes/KeyValue/" + w.first); wstring t; VH_CHECK(n->TryGetAttribute(L"Type", &t) && t == W(w.second.first), "custom", w.first + ": type '" + show(t) + "' instead of " + w.second.first); w.second.second("custom key " + w.first, n); ev("custom-key"); } }); log += "custom ";
    }
    ctx().currentDesc = "writers: " + log; string xml = b->GetXml(r.chance(50)); ctx().currentDesc += xml.substr(0, 2000); auto m = r.chance(25) ? viaFile(r, xml) : parse(xml); for (auto& c : checks) c(m);
    ev("written-document");
}

static void prepared(Rng& r)
{
    using namespace libCZI; static const std::vector<std::pair<PixelType, wstring>> pts{ { PixelType::Gray8, L"Gray8" }, { PixelType::Gray16, L"Gray16" }, { PixelType::Gray32Float, L"Gray32Float" }, { PixelType::Bgr24, L"Bgr24" }, { PixelType::Bgr48, L"Bgr48" }, { PixelType::Bgra32, L"Bgra32" } };
    auto f = makeFile(); auto w = CreateCZIWriter(); w->Create(std::make_shared<MemOut>(f), std::make_shared<CCziWriterInfo>(libCZI::GUID{ 1, 2, 3, { 0 } }));
    bool withC = r.chance(80); int c0 = r.chance(60) ? 0 : r.range(0, 3), cn = withC ? r.range(1, 4) : 1; std::map<int, wstring> pt; std::map<int, std::pair<wstring, std::pair<bool, wstring>>> nm; int zmax = 0, x0 = INT_MAX, y0 = INT_MAX, x1 = INT_MIN, y1 = INT_MIN, mMax = -1;
    for (int c = c0; c < c0 + cn; ++c)
    {
        auto p = pts[(size_t)r.below(pts.size())]; bool any = c == c0 || c == c0 + cn - 1 || r.chance(80); if (!any) continue; pt[c] = p.second; int tiles = r.range(1, 3);
        for (int t = 0; t < tiles; ++t)
        {
            AddSubBlockInfoStridedBitmap a; a.Clear(); CDimCoordinate co; int z = r.range(0, 4); co.Set(DimensionIndex::Z, z); zmax = std::max(zmax, z); if (c == c0 && t == 0) co.Set(DimensionIndex::Z, 0); if (withC) co.Set(DimensionIndex::C, c);
            a.coordinate = co; a.mIndexValid = true; a.mIndex = t; mMax = std::max(mMax, t); a.x = r.range(-50, 50); a.y = r.range(-50, 50); a.logicalWidth = a.physicalWidth = r.range(1, 9); a.logicalHeight = a.physicalHeight = r.range(1, 9); a.PixelType = p.first;
            std::vector<uint8_t> px((size_t)a.physicalWidth * 8 * (size_t)a.physicalHeight); a.ptrBitmap = px.data(); a.strideBitmap = (uint32_t)a.physicalWidth * 8; { int z0; co.TryGetPosition(DimensionIndex::Z, &z0); if (z0 == 0 && z != 0) { /* the first tile defines z=0 */ } }
            w->SyncAddSubBlock(a); x0 = std::min(x0, a.x); y0 = std::min(y0, a.y); x1 = std::max(x1, a.x + a.logicalWidth); y1 = std::max(y1, a.y + a.logicalHeight);
        }
    }
    for (int c = c0; c < c0 + cn; ++c) nm[c] = { anyText(r), { r.chance(60), anyText(r) } };
    bool gen = r.chance(75); PrepareMetadataInfo pi; if (gen) pi.funcGenerateIdAndNameForChannel = [&](int c) { return std::make_tuple(u8(nm.at(c).first), std::make_tuple(nm.at(c).second.first, u8(nm.at(c).second.second))); };
    auto b = w->GetPreparedMetadata(pi); string xml = b->GetXml(); ctx().currentDesc = "prepared " + xml.substr(0, 2000); WriteMetadataInfo mi; mi.Clear(); mi.szMetadata = xml.c_str(); mi.szMetadataSize = xml.size(); w->SyncWriteMetadata(mi); w->Close();
    auto rd = CreateCZIReader(); rd->Open(std::make_shared<MemIn>(f)); auto m = rd->ReadMetadataSegment()->CreateMetaFromMetadataSegment(); auto st = rd->GetStatistics(); auto di = m->GetDocumentInfo();
    wantInt(m, "Information/Image/SizeX", x1 - x0); wantInt(m, "Information/Image/SizeY", y1 - y0); wantInt(m, "Information/Image/SizeM", mMax + 1);
    for (auto& d : dims()) { int s, z; bool has = st.dimBounds.TryGetInterval(d.first, &s, &z); auto e = di->GetDimensionInfo(d.first); VH_EQ(e != nullptr, has, "prepared", string("dimension ") + d.second); if (has) { int a, bb; e->GetInterval(&a, &bb); VH_EQ(bb - a, z, "prepared", string("size of dimension ") + d.second); } }
    wantText(m, "Information/Image/PixelType", pt.begin()->second);
    if (withC)
    {
        auto ci = di->GetDimensionChannelsInfo(); VH_CHECK(ci != nullptr, "prepared", "no channels"); VH_EQ(ci->GetChannelCount(), cn, "prepared", string("channel count")); std::set<wstring> ids;
        for (int i = 0; i < cn; ++i)
        {
            auto ch = ci->GetChannel(i); wstring id, name, p; VH_CHECK(ch->TryGetAttributeId(&id), "prepared", "no id"); bool hn = ch->TryGetAttributeName(&name);
            if (gen) { auto& e = nm.at(c0 + i); VH_CHECK(id == e.first, "prepared", "id '" + show(id) + "' instead of '" + show(e.first) + "'"); VH_EQ(hn, e.second.first, "prepared", string("has a name")); if (hn) VH_CHECK(name == e.second.second, "prepared", "name '" + show(name) + "' instead of '" + show(e.second.second) + "'"); }
            else VH_CHECK(ids.insert(id).second, "prepared", "two channels have the same id");
            bool has = pt.count(c0 + i) != 0; auto node = must(m, "Information/Image/Dimensions/Channels/Channel[" + std::to_string(i) + "]"); auto pn = node->GetChildNodeReadonly("PixelType"); VH_EQ(pn != nullptr, has, "prepared", string("pixel type of channel present")); if (has) { wstring t; VH_CHECK(pn->TryGetValue(&t) && t == pt.at(c0 + i), "prepared", "pixel type '" + show(t) + "' instead of '" + show(pt.at(c0 + i)) + "'"); } ev("prepared-channel");
        }
    }
    (void)zmax; ev("prepared");
}

// ------------------------------------------------------------------------- (d) dates
static void dates(Rng& r)
{
    for (int k = 0; k < 12; ++k)
    {
        XmlDateTime d = anyDate(r), g; ctx().evals++; string want = dateText(d); ctx().currentDesc = "date " + want; VH_CHECK(d.IsValid(), "date-valid", want);
        string t = d.ToXmlString(); VH_EQ(t, want, "date-text", string("ToXmlString")); VH_CHECK(d.ToXmlWstring() == W(want), "date-text", "ToXmlWstring"); if (d.HasTimeZoneOffset() && d.offsetHours == 0) VH_CHECK(true, "", "");
        bool ok = r.chance(50) ? XmlDateTime::TryParse(t.c_str(), &g) : XmlDateTime::TryParse(W(t).c_str(), &g); VH_CHECK(ok && sameDate(g, d), "date-roundtrip", t); ev("date");
        string frac = r.pick({ string(".5"), string(".123456789"), string(".0") }); t = dateText(d, frac); VH_CHECK(XmlDateTime::TryParse((r.chance(50) ? t : "\t " + t + " ").c_str(), &g) && sameDate(g, d), "date-fraction", t);
        // not dates
        string u = dateText(d); XmlDateTime sentinel; sentinel.Clear(); sentinel.year = 77; g = sentinel;
        switch (r.below(6)) { case 0: u = u.substr(0, u.size() - 1 - (size_t)r.below(3)); if (XmlDateTime::TryParse(u.c_str(), nullptr)) u = "x"; break; case 1: { size_t p = u.find('T'); u[p] = ' '; break; } case 2: u += "x"; break; case 3: { size_t p = u.find('T'); u.replace(p - 2, 2, r.pick({ string("00"), string("32"), string("99") })); break; } case 4: { size_t p = u.find('T'); u.replace(p - 5, 2, r.pick({ string("00"), string("13"), string("99") })); break; } default: { size_t p = u.find('T'); u.replace(p + 1, 2, r.pick({ string("24"), string("25"), string("99"), string("-1") })); break; } }
        VH_CHECK(!XmlDateTime::TryParse(u.c_str(), &g), "date-invalid-accepted", u); VH_EQ(g.year, 77, "date-invalid-accepted", "result touched for " + u); ev("date-invalid");
        XmlDateTime bad = d; switch (r.below(6)) { case 0: bad.mon = r.pick({ 0, 13, -1, 100 }); break; case 1: bad.mday = r.pick({ 0, 32, -1 }); break; case 2: bad.hour = r.pick({ 24, -1 }); break; case 3: bad.min = r.pick({ 60, -1 }); break; case 4: bad.sec = r.pick({ 61, -1 }); break; default: bad.year = r.pick({ 10000, -10000, INT_MAX, INT_MIN }); if (bad.mon == 2) bad.mday = 1; break; }
        if (r.chance(15)) { bad = d; bad.mon = r.pick({ 2, 4, 6, 9, 11 }); bad.mday = bad.mon == 2 ? (((bad.year % 4 == 0 && bad.year % 100 != 0) || bad.year % 400 == 0) ? 30 : 29) : 31; }
        VH_CHECK(!bad.IsValid(), "date-bad-valid", "an impossible date is valid"); bool thrown = false; try { bad.ToXmlString(); } catch (std::invalid_argument&) { thrown = true; } VH_CHECK(thrown, "date-bad-valid", "an impossible date is written");
    }
}

// ------------------------------------------------------------------------- (e) metadata of a sub-block
static void subBlockMetadata(Rng& r)
{
    using namespace libCZI; N root(r.chance(92) ? L"METADATA" : L"Metadata"); bool right = root.name == L"METADATA";
    struct Tag { wstring name; bool num; double v; wstring text; }; std::vector<Tag> tags; bool hasTags = r.chance(85), hasFormat = r.chance(60); wstring format = r.chance(50) ? L"CHUNKCONTAINER" : anyText(r);
    if (r.chance(30)) root.add("DataSchema").add("ValidBitsPerPixel").val(string("14"));
    if (hasFormat) root.at("AttachmentSchema/DataFormat").val(format); else if (r.chance(30)) root.at("AttachmentSchema");
    if (hasTags)
    {
        N& t = root.add("Tags"); std::set<wstring> used;
        auto put = [&](const wstring& n) { if (!used.insert(n).second) return; Tag g{ n, r.chance(75), anyDouble(r), L"" }; if (g.num) g.text = W(dblText(r, g.v)); else { do g.text = anyText(r); while (g.text.find_first_of(L"0123456789.") != wstring::npos || g.text.find_first_of(L"nNiI") != wstring::npos); } t.add(n).val(g.text); tags.push_back(g); };
        if (r.chance(70)) put(L"StageXPosition"); if (r.chance(70)) put(L"StageYPosition"); if (r.chance(50)) put(L"FocusPosition"); if (r.chance(30)) put(L"AcquisitionTime"); for (int k = r.range(0, 3); k > 0; --k) put(anyName(r));
    }
    shuffleTree(r, root); string xml = document(r, root); bool valid = true; if (r.chance(6)) { xml = r.chance(50) ? xml.substr(0, xml.size() - 3) : string("<a><b></a>"); valid = false; }
    ctx().currentDesc = "sub-block metadata " + xml.substr(0, 300);
    auto f = makeFile(); { auto w = CreateCZIWriter(); w->Create(std::make_shared<MemOut>(f), std::make_shared<CCziWriterInfo>(libCZI::GUID{ 1, 2, 3, { 4, 5, 6, 7, 8, 9, 10, 11 } })); AddSubBlockInfoMemPtr i; i.Clear(); i.coordinate = CDimCoordinate{ { DimensionIndex::C, 0 } }; i.logicalWidth = i.logicalHeight = i.physicalWidth = i.physicalHeight = 1; i.PixelType = PixelType::Gray8; uint8_t px = 9; i.ptrData = &px; i.dataSize = 1; i.ptrSbBlkMetadata = xml.data(); i.sbBlkMetadataSize = (uint32_t)xml.size(); w->SyncAddSubBlock(i); w->Close(); }
    auto rd = CreateCZIReader(); rd->Open(std::make_shared<MemIn>(f)); std::shared_ptr<ISubBlockMetadata> m; { auto sb = rd->ReadSubBlock(0); if (r.chance(50)) m = CreateSubBlockMetadataFromSubBlock(sb.get()); else { auto a = CreateSubBlockAttachmentAccessor(sb, nullptr); m = a->GetSubBlockMetadata(); } } // (it does not depend on the sub-block)
    VH_EQ(m->IsXmlValid(), valid, "subblock-xml", "IsXmlValid");
    if (!valid)
    {
        auto throws = [&](auto&& fn) { bool t = false; try { fn(); } catch (LibCZIXmlParseException&) { t = true; } VH_CHECK(t, "subblock-xml", "invalid XML is not reported"); };
        throws([&]() { m->GetXml(); }); throws([&]() { m->TryGetAttachmentDataFormat(nullptr); }); throws([&]() { m->TryGetTagAsDouble(L"A", nullptr); }); throws([&]() { m->TryGetTagAsString(L"A", nullptr); }); throws([&]() { m->TryGetStagePositionFromTags(nullptr); }); throws([&]() { m->GetChildNodeReadonly("METADATA"); });
        ev("subblock-xml-invalid"); return;
    }
    auto node = m->GetChildNodeReadonly(u8(root.name).c_str()); VH_CHECK(node != nullptr, "subblock-xml", "root node not found"); compare(*node, root, "METADATA", "subblock-xml");
    { auto again = parse(m->GetXml()); auto n2 = again->GetChildNodeReadonly(u8(root.name).c_str()); VH_CHECK(n2 != nullptr, "subblock-xml", "root node not found in GetXml"); compare(*n2, root, "METADATA", "subblock-xml"); }
    wstring s = L"#"; bool b = m->TryGetAttachmentDataFormat(&s); VH_CHECK(b == (right && hasFormat) && s == (b ? format : L"#"), "subblock-format", "TryGetAttachmentDataFormat gives '" + show(s) + "'"); VH_EQ(m->TryGetAttachmentDataFormat(nullptr), b, "subblock-format", "null");
    const Tag* px = nullptr; const Tag* py = nullptr;
    for (auto& t : tags)
    {
        s = L"#"; b = m->TryGetTagAsString(t.name, &s); VH_CHECK(b == right && s == (b ? t.text : L"#"), "subblock-tag", "tag " + show(t.name) + " as text gives '" + show(s) + "' instead of '" + show(t.text) + "'"); VH_EQ(m->TryGetTagAsString(t.name, nullptr), b, "subblock-tag", "null");
        double d = -77; b = m->TryGetTagAsDouble(t.name, &d); VH_CHECK(b == (right && t.num) && d == (b ? t.v : -77), "subblock-tag", "tag " + show(t.name) + " as number gives " + std::to_string(d)); VH_EQ(m->TryGetTagAsDouble(t.name, nullptr), b, "subblock-tag", "null"); ev("subblock-tag");
        if (t.name == L"StageXPosition") px = &t; if (t.name == L"StageYPosition") py = &t;
    }
    s = L"#"; VH_CHECK(!m->TryGetTagAsString(L"NotThere", &s) && s == L"#" && !m->TryGetTagAsDouble(L"NotThere", nullptr), "subblock-tag", "a tag which does not exist");
    std::tuple<double, double> pos{ -7., -8. }; b = m->TryGetStagePositionFromTags(&pos); bool want = right && px && py && px->num && py->num;
    VH_EQ(b, want, "subblock-stage", "TryGetStagePositionFromTags"); VH_CHECK(pos == (want ? std::make_tuple(px->v, py->v) : std::make_tuple(-7., -8.)), "subblock-stage", "stage position " + std::to_string(std::get<0>(pos)) + ", " + std::to_string(std::get<1>(pos))); VH_EQ(m->TryGetStagePositionFromTags(nullptr), want, "subblock-stage", "null");
    if (want) ev("stage-position");
}

static void oneCase(Rng& r, uint64_t)
{
    if (r.chance(10)) { subBlockMetadata(r); return; }
    switch (r.below(10)) { case 0: case 1: case 2: case 3: builderHistory(r); break; case 4: case 5: case 6: structured(r); break; case 7: writers(r); break; case 8: prepared(r); break; default: dates(r); break; }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C20", Options{ 6000, 200000 }, oneCase); }
