// C23: display settings keep their values through XML; look-up tables equal the definition of the curve.
#include "vh.hpp"
#include "memio.hpp"
#include "libCZI.h"
#include "libCZI_Helpers.h"
#include <cmath>
#include <climits>
#include <limits>
using namespace vh;
using libCZI::IDisplaySettings; using libCZI::ChannelDisplaySettingsPOD; using libCZI::DisplaySettingsPOD; using libCZI::PixelType;
using Mode = IDisplaySettings::GradationCurveMode; using Tint = IDisplaySettings::TintingMode; using Pt = IDisplaySettings::SplineControlPoint;

struct XmlSegment : libCZI::IMetadataSegment
{
    std::string s; explicit XmlSegment(std::string x) : s(std::move(x)) {}
    std::shared_ptr<const void> GetRawData(MemBlkType t, size_t* n) override { size_t k = t == XmlMetadata ? s.size() : 0; if (n) *n = k; auto p = std::make_shared<std::vector<char>>(s.begin(), s.begin() + k); return std::shared_ptr<const void>(p, p->data()); }
    void DangerousGetRawData(MemBlkType t, const void*& p, size_t& n) const override { p = s.data(); n = t == XmlMetadata ? s.size() : 0; }
};

// ------------------------------------------------------------------------- curves by definition
struct Curve
{
    virtual ~Curve() = default;
    virtual double at(double x) const = 0;      // 0..1 -> not clamped
};
struct GammaCurve : Curve
{
    double g, a = 0; bool toe;
    explicit GammaCurve(float gamma) : g(gamma), toe(gamma < 1.0f)
    {
        if (!toe) return;
        if (std::fabs(g - 0.5) < 0.0001) a = 224;
        else if (std::fabs(g - 0.45) < 0.0001) a = 287.806332841221;
        else { a = 224; for (int i = 0; i < 200; ++i) { double n = (std::pow(a + 1, g) - 1) / (g * g * g * g); double d = std::fabs(n - a); a = n; if (d < 1e-6) break; } }
    }
    double at(double x) const override { return toe ? (std::pow(a * x + 1, g) - 1) / (std::pow(a + 1, g) - 1) : std::pow(x, g); }
};
struct SplineCurve : Curve
{
    std::vector<double> x, y, m; // m: second derivatives, natural ends
    explicit SplineCurve(const std::vector<Pt>& p)
    {
        x.push_back(0); y.push_back(0); for (auto& e : p) { x.push_back(e.x); y.push_back(e.y); } x.push_back(1); y.push_back(1);
        size_t n = x.size(); m.assign(n, 0); std::vector<double> c(n, 0), d(n, 0);
        for (size_t i = 1; i + 1 < n; ++i)
        {
            double h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i], b = 2 * (h0 + h1), r = 6 * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0);
            double w = b - (i > 1 ? h0 * c[i - 1] : 0); c[i] = h1 / w; d[i] = (r - (i > 1 ? h0 * d[i - 1] : 0)) / w;
        }
        for (size_t i = n - 2; i >= 1; --i) m[i] = d[i] - (i + 2 < n ? c[i] * m[i + 1] : 0);
    }
    double at(double t) const override
    {
        size_t i = 0; while (i + 2 < x.size() && t > x[i + 1]) ++i;
        double h = x[i + 1] - x[i], A = (x[i + 1] - t) / h, B = (t - x[i]) / h;
        return A * y[i] + B * y[i + 1] + ((A * A * A - A) * m[i] + (B * B * B - B) * m[i + 1]) * h * h / 6;
    }
};

static std::string describe(const ChannelDisplaySettingsPOD& p)
{
    std::ostringstream o; o.precision(17);
    o << (p.isEnabled ? "on" : "off") << " w=" << p.weight << " tint="; if (p.tintingMode == Tint::Color) o << (int)p.tintingColor.r << "/" << (int)p.tintingColor.g << "/" << (int)p.tintingColor.b; else o << "none";
    o << " " << p.blackPoint << ".." << p.whitePoint; if (p.gradationCurveMode == Mode::Gamma) o << " gamma=" << p.gamma; if (p.gradationCurveMode == Mode::Spline) { o << " spline"; for (auto& q : p.splineCtrlPoints) o << " " << q.x << "," << q.y; }
    return o.str();
}

/// is the position of the black/white point in the table clear (rounding cannot change it)?
static bool clearPosition(int cnt, float p) { double v = (double)p * cnt, r = std::round(v); return v == r || std::fabs(v - r) > 1e-4 * std::max(1.0, std::fabs(v)); }

template <typename T> static void checkTable(const std::vector<T>& lut, int cnt, float black, float white, const Curve& c, double tol, const std::string& what)
{
    ctx().currentDesc = what; ctx().evals++;
    VH_EQ(lut.size(), (size_t)cnt, "lut-size", what);
    if (!clearPosition(cnt, black) || !clearPosition(cnt, white)) { ev("lut-position-not-clear"); return; }
    const double mx = (std::numeric_limits<T>::max)(); double lo = (double)black * cnt, hi = (double)white * cnt; bool inside = lo >= 0 && hi <= cnt && lo <= hi;
    if (inside)
    {
        int l = (int)lo, h = (int)hi;
        for (int i = 0; i < cnt; ++i)
        {
            double e = i < l ? 0 : i >= h ? mx : h - l == 1 ? -1 : mx * std::min(1.0, std::max(0.0, c.at((double)(i - l) / (h - l - 1))));
            if (e < 0) { ev("single-entry"); continue; } // the interval has a single entry: either end of the curve
            if (!(std::fabs((double)lut[i] - e) <= tol)) { std::ostringstream o; o << what << ": entry " << i << " of " << cnt << " is " << (int)lut[i] << ", the curve gives " << e; fail(i < l || i >= h ? "lut-clip" : "lut-value", o.str()); }
        }
        ev("lut-inside"); if (h > l) ev("lut-curve");
    }
    else if (std::fabs(lo) > 1e6 || std::fabs(hi) > 1e6) ev("lut-far-outside"); // absurd: only the size is judged
    else if (lo <= hi)
    {   // the part of the curve which is inside the table; the rounding of positions outside the table is not prescribed
        double L[2] = { std::floor(lo), std::ceil(lo) }, H[2] = { std::floor(hi), std::ceil(hi) };
        for (int i = 0; i < cnt; ++i)
        {
            double mn = 1e300, ma = -1e300;
            for (double l : L) for (double h : H)
            {
                double e;
                if (i < l) e = 0; else if (i >= h) e = mx; else if (h - l <= 1) { mn = 0; ma = mx; continue; } else e = mx * std::min(1.0, std::max(0.0, c.at(std::min(1.0, (i - l) / (h - l - 1)))));
                mn = std::min(mn, e); ma = std::max(ma, e);
            }
            if (!(lut[i] >= mn - tol && lut[i] <= ma + tol)) { std::ostringstream o; o << what << ": entry " << i << " of " << cnt << " is " << (int)lut[i] << ", the curve gives " << mn << ".." << ma; fail("lut-outside", o.str()); }
        }
        ev("lut-outside");
    }
    else ev("lut-reversed");
    ctx().seenHash(hash64(lut.data(), lut.size() * sizeof(T)));
}
static float point(Rng& r, int cnt)
{
    switch (r.below(7))
    {
    case 0: return 0; case 1: return 1;
    case 2: return (float)r.range(0, cnt) / cnt;
    case 3: return (float)(r.unit() * 3 - 1);
    case 4: return r.pick({ -1.0f, 2.0f, 1.5f, -0.25f, 1e30f, -1e30f, 1e9f, -1e9f, 3.0f });
    default: return (float)r.unit();
    }
}
static void points(Rng& r, int cnt, float& b, float& w)
{
    if (r.chance(25)) { b = 0; w = 1; return; }
    b = point(r, cnt); w = point(r, cnt);
    if (r.chance(20)) w = b + (float)r.range(0, 3) / cnt; // next to each other
    if (b > w && r.chance(90)) std::swap(b, w);
}
static std::vector<Pt> splinePoints(Rng& r)
{
    std::vector<double> xs; int n = r.range(1, 10); for (int i = 0; i < n * 4 && (int)xs.size() < n; ++i) { double x = r.chance(20) ? r.range(1, 99) / 100.0 : 0.006 + r.unit() * 0.988; bool ok = true; for (double v : xs) if (std::fabs(v - x) < 0.005) ok = false; if (ok && x >= 0.005 && x <= 0.995) xs.push_back(x); }
    std::sort(xs.begin(), xs.end()); std::vector<Pt> p; double y = 0; bool mono = r.chance(50); size_t k = 0;
    for (double x : xs) { ++k; if (mono) y += (1 - y) * r.unit() / (xs.size() - k + 1.0); else y = r.chance(10) ? r.unit() * 3 - 1 : r.unit(); p.emplace_back(x, y); }
    return p;
}
static float gammaValue(Rng& r) { return r.chance(15) ? r.pick({ 0.5f, 0.45f, 1.0f, 2.2f, 0.4501f, 0.4999f, 0.3f, 10.0f }) : r.chance(50) ? (float)(0.1 + r.unit() * 0.9) : (float)(1 + r.unit() * r.pick({ 1.0, 4.0, 20.0 })); }

static void luts(Rng& r)
{
    int cnt = r.chance(40) ? 256 : r.chance(10) ? 65536 : r.chance(20) ? r.range(1, 20) : r.chance(30) ? 4096 : r.range(1, 3000);
    float b, w; points(r, cnt, b, w); std::ostringstream o; o.precision(9);
    if (r.chance(55))
    {
        float g = gammaValue(r); GammaCurve c(g); o << "table of " << cnt << " from gamma " << g << ", " << b << ".." << w;
        if (r.chance(60)) checkTable(libCZI::Utils::Create8BitLookUpTableFromGamma(cnt, b, w, g), cnt, b, w, c, 1.01, "8-bit " + o.str());
        else checkTable(libCZI::Utils::Create16BitLookUpTableFromGamma(cnt, b, w, g), cnt, b, w, c, g < 1 ? 20 : 2, "16-bit " + o.str());
        ev(g < 1 ? "gamma-toe" : "gamma");
    }
    else
    {
        auto p = splinePoints(r); SplineCurve c(p); o << "table of " << cnt << " from spline, " << b << ".." << w << ", points"; o.precision(17); for (auto& e : p) o << " " << e.x << "," << e.y;
        auto sd = libCZI::Utils::CalcSplineDataFromPoints((int)p.size(), [&](int i) { return std::make_tuple(p.at(i).x, p.at(i).y); });
        VH_EQ(sd.size(), p.size() + 1, "spline-pieces", o.str());
        for (size_t i = 0; i < sd.size(); ++i)
        {
            VH_CHECK(sd[i].xPos == c.x[i], "spline-position", o.str() << ": piece " << i << " starts at " << sd[i].xPos);
            for (int k = 0; k < 5; ++k) { double t = c.x[i] + (c.x[i + 1] - c.x[i]) * k / 4, u = t - sd[i].xPos; auto& q = sd[i].coefficients; double v = ((q.a * u + q.b) * u + q.c) * u + q.d, e = c.at(t); VH_CHECK(std::fabs(v - e) < 1e-6 * (1 + std::fabs(e)) , "spline-coefficients", o.str() << ": at " << t << " the pieces give " << v << ", the natural spline " << e); }
        }
        checkTable(libCZI::Utils::Create8BitLookUpTableFromSplines(cnt, b, w, sd), cnt, b, w, c, 1.01, o.str()); ev("spline");
    }
}

// ------------------------------------------------------------------------- settings
static float number(Rng& r)
{
    switch (r.below(6))
    {
    case 0: return (float)r.unit(); case 1: return r.pick({ 0.f, 1.f, 0.5f, 2.f, 0.1f, 1.f / 3 });
    case 2: return (float)r.unit() * 1e-6f; case 3: return (float)r.range(0, 1000000) / 65535;
    case 4: return std::nextafter((float)r.unit(), 2.0f); default: return (float)(r.unit() * std::pow(10.0, r.range(-30, 30)));
    }
}
static ChannelDisplaySettingsPOD channel(Rng& r)
{
    ChannelDisplaySettingsPOD p; p.Clear(); p.tintingColor = { 0,0,0 };
    p.isEnabled = r.chance(60); p.weight = r.chance(40) ? 1 : number(r); p.tintingMode = r.chance(60) ? Tint::Color : Tint::None;
    if (p.tintingMode == Tint::Color) p.tintingColor = { (uint8_t)r.below(256), (uint8_t)r.below(256), (uint8_t)r.below(256) };
    p.blackPoint = r.chance(20) ? 0 : number(r); p.whitePoint = r.chance(20) ? 1 : number(r); if (r.chance(10)) p.blackPoint = -p.blackPoint;
    switch (r.below(3)) { case 0: p.gradationCurveMode = Mode::Gamma; p.gamma = r.chance(50) ? gammaValue(r) : number(r); break; case 1: p.gradationCurveMode = Mode::Spline; p.splineCtrlPoints = splinePoints(r); if (p.splineCtrlPoints.empty()) p.splineCtrlPoints.emplace_back(0.5, 0.25); break; default: p.gradationCurveMode = Mode::Linear; }
    return p;
}
static void sameChannel(const libCZI::IChannelDisplaySetting* g, const ChannelDisplaySettingsPOD& e, const std::string& what)
{
    ctx().currentDesc = what; VH_CHECK(g != nullptr, "channel-missing", what);
    VH_EQ(g->GetIsEnabled(), e.isEnabled, "enabled", what); VH_CHECK(g->GetWeight() == e.weight, "weight", what << ": got " << g->GetWeight());
    float b = -9, w = -9; g->GetBlackWhitePoint(&b, &w); VH_CHECK(b == e.blackPoint && w == e.whitePoint, "black-white", what << ": got " << b << ".." << w);
    libCZI::Rgb8Color c{ 1,2,3 }; bool t = g->TryGetTintingColorRgb8(&c); VH_EQ(t, e.tintingMode == Tint::Color, "tinting-mode", what);
    if (t) VH_CHECK(c.r == e.tintingColor.r && c.g == e.tintingColor.g && c.b == e.tintingColor.b, "tinting-color", what << ": got " << (int)c.r << "/" << (int)c.g << "/" << (int)c.b);
    VH_CHECK(g->GetGradationCurveMode() == e.gradationCurveMode, "mode", what << ": got mode " << (int)g->GetGradationCurveMode());
    float gm = -1; bool hg = g->TryGetGamma(&gm); VH_EQ(hg, e.gradationCurveMode == Mode::Gamma, "gamma-present", what); if (hg) VH_CHECK(gm == e.gamma, "gamma", what << ": got " << gm);
    std::vector<Pt> p; bool hs = g->TryGetSplineControlPoints(&p); VH_EQ(hs, e.gradationCurveMode == Mode::Spline, "spline-present", what); if (hs) VH_CHECK(p == e.splineCtrlPoints, "spline-points", what);
    VH_EQ(g->TryGetGamma(nullptr), hg, "null-out", what); VH_EQ(g->TryGetSplineControlPoints(nullptr), hs, "null-out", what); VH_EQ(g->TryGetTintingColorRgb8(nullptr), t, "null-out", what); VH_EQ(g->TryGetSplineData(nullptr), hs, "null-out", what); g->GetBlackWhitePoint(nullptr, nullptr);
    if (hs)
    {
        std::vector<IDisplaySettings::SplineData> sd; VH_CHECK(g->TryGetSplineData(&sd), "spline-data", what); VH_EQ(sd.size(), p.size() + 1, "spline-pieces", what); SplineCurve cv(p);
        for (size_t i = 0; i < sd.size(); ++i) for (int k = 0; k < 3; ++k) { double x = cv.x[i] + (cv.x[i + 1] - cv.x[i]) * k / 2, u = x - sd[i].xPos; auto& q = sd[i].coefficients; double v = ((q.a * u + q.b) * u + q.c) * u + q.d; VH_CHECK(sd[i].xPos == cv.x[i] && std::fabs(v - cv.at(x)) < 1e-6 * (1 + std::fabs(v)), "spline-coefficients", what << ": at " << x << " got " << v); }
    }
    ev(e.gradationCurveMode == Mode::Gamma ? "channel-gamma" : e.gradationCurveMode == Mode::Spline ? "channel-spline" : "channel-linear"); ctx().evals++;
}
static std::map<int, ChannelDisplaySettingsPOD> channels(Rng& r, bool dense)
{
    std::map<int, ChannelDisplaySettingsPOD> m; int n = r.chance(10) ? 0 : r.range(1, 6); for (int i = 0; i < n; ++i) m[dense ? i : r.chance(50) ? i : r.range(0, 1000)] = channel(r); return m;
}
static void sameSettings(const IDisplaySettings* ds, const std::map<int, ChannelDisplaySettingsPOD>& m, const std::string& what)
{
    std::vector<int> chs; ds->EnumChannels([&](int c) { chs.push_back(c); return true; });
    std::vector<int> e; for (auto& k : m) e.push_back(k.first); std::sort(chs.begin(), chs.end()); VH_CHECK(chs == e, "channels", what << ": " << chs.size() << " channels instead of " << e.size());
    for (auto& k : m) { auto c = ds->GetChannelDisplaySettings(k.first); sameChannel(c.get(), k.second, what + ", channel " + std::to_string(k.first) + ": " + describe(k.second)); }
    int absent = -1; VH_CHECK(!ds->GetChannelDisplaySettings(absent) && !ds->GetChannelDisplaySettings(e.empty() ? 0 : e.back() + 1), "channel-phantom", what);
    DisplaySettingsPOD pod; IDisplaySettings::Clone(ds, pod); VH_EQ(pod.channelDisplaySettings.size(), m.size(), "clone", what);
    for (auto& k : m) { VH_CHECK(pod.channelDisplaySettings.count(k.first), "clone", what); sameChannel(ChannelDisplaySettingsPOD::CreateIChannelDisplaySettingSp(pod.channelDisplaySettings[k.first]).get(), k.second, what + ", clone of channel " + std::to_string(k.first)); }
    if (e.size() > 1) { int n = 0; ds->EnumChannels([&](int) { return ++n < 1; }); VH_EQ(n, 1, "enum-stop", what); }
}
static std::shared_ptr<libCZI::ICziMultiDimensionDocumentInfo> parse(const std::string& xml)
{
    XmlSegment s(xml); auto md = libCZI::CreateMetaFromMetadataSegment(&s); VH_CHECK(md->IsXmlValid(), "xml-invalid", xml.substr(0, 300)); auto di = md->GetDocumentInfo(); VH_CHECK(di != nullptr, "no-document-info", xml.substr(0, 300)); return di;
}
static void throughFile(const std::string& xml, std::string& back)
{
    auto f = makeFile(); auto w = libCZI::CreateCZIWriter(); w->Create(std::make_shared<MemOut>(f), nullptr);
    libCZI::WriteMetadataInfo wi; wi.Clear(); wi.szMetadata = xml.c_str(); wi.szMetadataSize = xml.size(); w->SyncWriteMetadata(wi); w->Close();
    auto rd = libCZI::CreateCZIReader(); rd->Open(std::make_shared<MemIn>(f)); auto ms = rd->ReadMetadataSegment(); size_t n = 0; auto p = ms->GetRawData(libCZI::IMetadataSegment::XmlMetadata, &n); back.assign((const char*)p.get(), n);
    auto md = ms->CreateMetaFromMetadataSegment(); auto di = md->GetDocumentInfo(); VH_CHECK(di != nullptr && di->GetDisplaySettings() != nullptr, "file-display-settings", "no display settings in the file"); ev("through-file");
}
static void roundTrip(Rng& r)
{
    bool dense = true; auto m = channels(r, dense); if (m.empty()) m[0] = channel(r);
    std::ostringstream o; o << "settings of " << m.size() << " channel(s)"; std::string what = o.str(); ctx().currentDesc = what;
    DisplaySettingsPOD pod; pod.channelDisplaySettings = m; auto ds = r.chance(50) ? DisplaySettingsPOD::CreateIDisplaySettingSp(pod) : std::shared_ptr<IDisplaySettings>(DisplaySettingsPOD::CreateIDisplaySetting(pod)); sameSettings(ds.get(), m, "object");
    auto b = libCZI::CreateMetadataBuilder();
    if (r.chance(30)) { DisplaySettingsPOD old; old.channelDisplaySettings = channels(r, true); if (old.channelDisplaySettings.empty()) old.channelDisplaySettings[0] = channel(r); libCZI::MetadataUtils::WriteDisplaySettings(b.get(), DisplaySettingsPOD::CreateIDisplaySettingSp(old).get()); ev("overwritten"); }
    if (r.chance(20)) b->GetRootNode()->GetOrCreateChildNode("Metadata/DisplaySetting/Other")->SetValue(L"kept");
    bool other = b->GetRootNode()->GetChildNodeReadonly("Metadata/DisplaySetting/Other") != nullptr;
    std::map<int, PixelType> pts; for (auto& k : m) if (r.chance(50)) pts[k.first] = r.pick({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float });
    int count = (int)m.size(); bool fewer = false;
    switch (r.below(4))
    {
    case 0: libCZI::MetadataUtils::WriteDisplaySettings(b.get(), ds.get(), r.chance(50) ? &pts : nullptr); break;
    case 1: libCZI::MetadataUtils::WriteDisplaySettings(b.get(), ds.get(), count, r.chance(50) ? &pts : nullptr); break;
    case 2: count = r.range(1, count); fewer = count < (int)m.size(); libCZI::MetadataUtils::WriteDisplaySettings(b.get(), ds.get(), count, &pts); break;
    default: libCZI::MetadataUtils::WriteDisplaySettings(b.get(), ds.get(), count, [&](int c, libCZI::MetadataUtils::CoerceAdditionalInfoForChannelDisplaySettings& i) { i.writeIdAttribute = i.writeNameAttribute = true; i.idAttribute = L"Channel:" + std::to_wstring(c); i.nameAttribute = L"<Näme> & \"" + std::to_wstring(c) + L"\""; if (pts.count(c)) { i.writePixelType = true; i.pixelType = pts[c]; } });
        for (int c = 0; c < count; ++c) { auto n = b->GetRootNode()->GetChildNodeReadonly(("Metadata/DisplaySetting/Channels/Channel[" + std::to_string(c) + "]").c_str()); std::wstring v; VH_CHECK(n && n->TryGetAttribute(L"Id", &v) && v == L"Channel:" + std::to_wstring(c), "id-attribute", what); VH_CHECK(n->TryGetAttribute(L"Name", &v) && v == L"<Näme> & \"" + std::to_wstring(c) + L"\"", "name-attribute", what); }
        ev("coerced");
    }
    if (fewer) { while ((int)m.size() > count) m.erase(std::prev(m.end())); ev("fewer-channels"); }
    if (other) { auto n = b->GetRootNode()->GetChildNodeReadonly("Metadata/DisplaySetting/Other"); std::wstring v; VH_CHECK(n && n->TryGetValue(&v) && v == L"kept", "sibling-lost", what); }
    std::string xml = b->GetXml(r.chance(50)); if (r.chance(10)) { std::string x; throughFile(xml, x); VH_CHECK(x == xml, "file-xml", what); }
    auto di = parse(xml); auto rd = di->GetDisplaySettings(); VH_CHECK(rd != nullptr, "display-settings-missing", what);
    sameSettings(rd.get(), m, what + " after XML");
    // and once more from what was read
    if (r.chance(30)) { auto b2 = libCZI::CreateMetadataBuilder(); libCZI::MetadataUtils::WriteDisplaySettings(b2.get(), rd.get()); sameSettings(parse(b2->GetXml())->GetDisplaySettings().get(), m, what + " after the second XML"); }
    ev("round-trip"); ctx().seen(xml);
}
/// hand-written XML: every field alone or missing
static void fromXml(Rng& r)
{
    std::ostringstream x; x << "<?xml version=\"1.0\" encoding=\"utf-8\"?><ImageDocument><Metadata><DisplaySetting>"; if (r.chance(30)) x << "<Foo><Channel><Low>0.7</Low></Channel></Foo>";
    x << "<Channels>"; int n = r.range(0, 5); std::map<int, ChannelDisplaySettingsPOD> m;
    auto num = [&](float v) { std::ostringstream o; if (r.chance(30)) o << std::scientific; o.precision(9); o << v; return o.str(); };
    for (int i = 0; i < n; ++i)
    {
        auto p = channel(r); p.tintingColor = { (uint8_t)r.below(256), (uint8_t)r.below(256), (uint8_t)r.below(256) }; std::vector<std::string> f;
        if (r.chance(75)) f.push_back("<Low>" + num(p.blackPoint) + "</Low>"); else p.blackPoint = 0;
        if (r.chance(75)) f.push_back("<High>" + num(p.whitePoint) + "</High>"); else p.whitePoint = 1;
        if (r.chance(50)) f.push_back("<Weight>" + num(p.weight) + "</Weight>"); else p.weight = 1;
        if (r.chance(75)) f.push_back(std::string("<IsSelected>") + (p.isEnabled ? "true" : "false") + "</IsSelected>"); else p.isEnabled = true;
        char c[32]; snprintf(c, sizeof c, r.chance(50) ? "#%02X%02X%02X%02X" : "#%02x%02x%02x%02x", (int)r.below(256), p.tintingColor.r, p.tintingColor.g, p.tintingColor.b);
        if (p.tintingMode == Tint::None) f.push_back("<ColorMode>None</ColorMode>"); else if (r.chance(40)) f.push_back("<ColorMode>Color</ColorMode>");
        if (p.tintingMode == Tint::Color || r.chance(40)) f.push_back(std::string("<Color>") + c + "</Color>");
        if (p.gradationCurveMode == Mode::Gamma) f.push_back("<Gamma>" + num(p.gamma) + "</Gamma>");
        if (p.gradationCurveMode == Mode::Spline)
        {
            f.push_back("<Mode>Spline</Mode>"); std::ostringstream q; q.precision(17); bool first = true; for (auto& e : p.splineCtrlPoints) { q << (first ? "" : r.chance(50) ? " " : "  ") << e.x << (r.chance(90) ? "," : " , ") << e.y; first = false; } f.push_back("<Points>" + q.str() + "</Points>");
            if (r.chance(30)) f.push_back("<Gamma>0.7</Gamma>"); // a spline has precedence
        }
        if (r.chance(20)) f.push_back("<ShortName>abc</ShortName>"); r.shuffle(f);
        x << (r.chance(50) ? "<Channel Id=\"Channel:" + std::to_string(i) + "\">" : "<Channel>"); for (auto& e : f) x << (r.chance(30) ? "\n  " : "") << e; x << "</Channel>"; m[i] = p;
    }
    x << "</Channels></DisplaySetting></Metadata></ImageDocument>"; ctx().currentDesc = x.str();
    auto di = parse(x.str()); auto ds = di->GetDisplaySettings(); VH_CHECK(ds != nullptr, "display-settings-missing", x.str());
    sameSettings(ds.get(), m, "hand-written " + x.str()); ev("hand-written"); ctx().seen(x.str());
}
static void helper(Rng& r)
{
    DisplaySettingsPOD pod; pod.channelDisplaySettings = channels(r, r.chance(50));
    for (auto& k : pod.channelDisplaySettings) { auto& p = k.second; points(r, 256, p.blackPoint, p.whitePoint); if (p.gradationCurveMode == Mode::Gamma) p.gamma = gammaValue(r); }
    auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(pod); std::map<int, PixelType> pt; for (auto& k : pod.channelDisplaySettings) pt[k.first] = r.chance(10) ? PixelType::Gray16 : r.pick({ PixelType::Gray8, PixelType::Bgr24 });
    libCZI::CDisplaySettingsHelper h; bool again = r.chance(20); std::set<int> asked; std::vector<int> act; for (auto& k : pod.channelDisplaySettings) if (k.second.isEnabled) act.push_back(k.first);
    auto get = [&](int c) { asked.insert(c); return pt.at(c); };
    for (int i = 0; i <= (again ? 1 : 0); ++i)
    {
        if (r.chance(70)) h.Initialize(ds.get(), get);
        else { auto it = pod.channelDisplaySettings.begin(); h.Initialize([&](int& c, std::shared_ptr<libCZI::IChannelDisplaySetting>& s) { if (it == pod.channelDisplaySettings.end()) return false; c = it->first; s = ds->GetChannelDisplaySettings(c); ++it; return true; }, get); }
    }
    for (int c : asked) VH_CHECK(pod.channelDisplaySettings.at(c).isEnabled, "asked-disabled", "channel " << c);
    VH_CHECK(h.GetActiveChannels() == act && h.GetActiveChannelsCount() == (int)act.size() && libCZI::CDisplaySettingsHelper::GetActiveChannels(ds.get()) == act, "active-channels", "got " << h.GetActiveChannels().size() << " expected " << act.size());
    for (size_t i = 0; i < act.size(); ++i)
    {
        auto& p = pod.channelDisplaySettings[act[i]]; auto& ci = h.GetActiveChannel((int)i); std::string what = "helper, " + describe(p); ctx().currentDesc = what;
        VH_CHECK(memcmp(&ci, h.GetChannelInfosArray() + i, sizeof ci) == 0, "helper-array", what); VH_CHECK(ci.weight == p.weight && ci.blackPoint == p.blackPoint && ci.whitePoint == p.whitePoint && ci.enableTinting == (p.tintingMode == Tint::Color), "helper-values", what);
        if (ci.enableTinting) VH_CHECK(ci.tinting.color.r == p.tintingColor.r && ci.tinting.color.g == p.tintingColor.g && ci.tinting.color.b == p.tintingColor.b, "helper-tint", what);
        if (p.gradationCurveMode == Mode::Linear) { VH_CHECK(ci.lookUpTableElementCount == 0, "helper-lut", what); continue; }
        int n = pt[act[i]] == PixelType::Gray16 ? 65536 : 256; VH_EQ(ci.lookUpTableElementCount, n, "helper-lut", what); std::vector<uint8_t> lut(ci.ptrLookUpTable, ci.ptrLookUpTable + n);
        if (p.gradationCurveMode == Mode::Gamma) checkTable(lut, n, p.blackPoint, p.whitePoint, GammaCurve(p.gamma), 1.01, what); else checkTable(lut, n, p.blackPoint, p.whitePoint, SplineCurve(p.splineCtrlPoints), 1.01, what);
        ev("helper-lut");
    }
    ev("helper");
}
static void oneCase(Rng& r, uint64_t)
{
    switch (r.below(5)) { case 0: case 1: luts(r); break; case 2: roundTrip(r); break; case 3: fromXml(r); break; default: helper(r); }
}
int main(int argc, char** argv) { return runMain(argc, argv, "C23", Options{ 20000, 1000000 }, oneCase); }
