// C22: histories of reads and writes on the built-in streams (files, memory, http) against a byte-exact shadow of the file,
// with short transfers, interruptions and errors injected below them, from one and from many threads.
#include "doc.hpp"
#include "memio.hpp"
#include "libCZI.h"
#include <atomic>
#include <thread>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
using namespace vh; using std::string; using std::wstring; using libCZI::StreamsFactory;
using Bytes = std::vector<uint8_t>;

// ---- below the streams: what the operating system may do --------------------------------------------------------------
struct Inject { std::atomic<int> mode{ 0 }; std::atomic<uint64_t> seed{ 1 }, calls{ 0 }, shorts{ 0 }, eintr{ 0 }, eio{ 0 }; std::atomic<int64_t> failAt{ -1 }; };
static Inject g_in; // mode: bit 0 short transfers, bit 1 interruptions, bit 2: error at call no. failAt (and all after it)
static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static ssize_t transfer(bool rd, int fd, void* p, size_t n, off_t off)
{
    int m = g_in.mode.load(std::memory_order_relaxed);
    if (n > 0 && n <= (1u << 26)) { if (rd) memset(p, 0xB7, n); else { volatile uint64_t h = hash64(p, n); (void)h; } } // (the whole buffer has to be accessible)
    if (m != 0)
    {
        uint64_t k = g_in.calls++; uint64_t z = mix(g_in.seed + k * 0x9E3779B97F4A7C15ull);
        if ((m & 4) && (int64_t)k >= g_in.failAt && g_in.failAt >= 0) { ++g_in.eio; errno = EIO; return -1; }
        if ((m & 2) && z % 5 == 0) { ++g_in.eintr; errno = EINTR; return -1; }
        if ((m & 1) && n > 1 && z % 3 != 0) { ++g_in.shorts; n = (z >> 8) % 2 ? 1 + (z >> 16) % (n - 1) : std::max<size_t>(1, n - 1 - (z >> 16) % std::min<size_t>(n - 1, 7)); }
    }
    return rd ? (ssize_t)syscall(SYS_pread64, fd, p, n, off) : (ssize_t)syscall(SYS_pwrite64, fd, p, n, off);
}
extern "C"
{
    ssize_t pread(int fd, void* p, size_t n, off_t off) { return transfer(true, fd, p, n, off); }
    ssize_t pread64(int fd, void* p, size_t n, off_t off) { return transfer(true, fd, p, n, off); }
    ssize_t pwrite(int fd, const void* p, size_t n, off_t off) { return transfer(false, fd, (void*)p, n, off); }
    ssize_t pwrite64(int fd, const void* p, size_t n, off_t off) { return transfer(false, fd, (void*)p, n, off); }
}
struct Injected // active while it lives
{
    Injected(Rng& r, int mode, int64_t failAt = -1) { g_in.seed = r.next(); g_in.calls = 0; g_in.shorts = g_in.eintr = g_in.eio = 0; g_in.failAt = failAt; g_in.mode = mode; }
    ~Injected() { g_in.mode = 0; if (g_in.shorts) ev("injected-short", g_in.shorts); if (g_in.eintr) ev("injected-interrupt", g_in.eintr); if (g_in.eio) ev("injected-error", g_in.eio); }
};

// ---- shadow of a (sparse) file ----------------------------------------------------------------------------------------
struct Shadow
{
    static constexpr uint64_t P = 4096; uint64_t len = 0; std::map<uint64_t, Bytes> pg; std::vector<std::pair<uint64_t, uint64_t>> unknown;
    void write(uint64_t off, const uint8_t* p, uint64_t n) { for (uint64_t i = 0; i < n;) { uint64_t a = off + i, k = std::min(P - a % P, n - i); auto& b = pg[a / P]; if (b.empty()) b.resize(P); memcpy(&b[a % P], p + i, k); i += k; } if (n) len = std::max(len, off + n); }
    Bytes read(uint64_t off, uint64_t n) const { Bytes o; if (off >= len) return o; n = std::min(n, len - off); o.resize(n); for (uint64_t i = 0; i < n;) { uint64_t a = off + i, k = std::min(P - a % P, n - i); auto it = pg.find(a / P); if (it != pg.end()) memcpy(&o[i], &it->second[a % P], k); i += k; } return o; }
};
static string scratchDir() { static string d; if (d.empty()) { const char* s = getenv("VERIF_SCRATCH"); d = string(s ? s : "/tmp") + "/c22_" + std::to_string((long)getpid()); mkdir(d.c_str(), 0700); } return d; }
static wstring W(const string& s) { wstring o; for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4; wchar_t v = n == 1 ? c : c & (0xff >> (n + 1)); for (int k = 1; k < n; ++k) v = (v << 6) | (s[i + k] & 0x3f); o += v; i += n; } return o; }
static string newPath(Rng& r)
{
    static uint64_t no = 0; string n = "f" + std::to_string(no++); if (r.chance(25)) n += r.pick({ string(" with blank"), string("\xC3\xA4\xC3\xB6\xE6\x97\xA5"), string("\xF0\x9F\x94\xAC"), string(".czi"), string("%41#?&") });
    return scratchDir() + "/" + n;
}
static std::set<string> listing() { std::set<string> s; DIR* d = opendir(scratchDir().c_str()); if (d) { while (auto* e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name); closedir(d); } return s; }
static void createFile(const string& path, const Shadow& s)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) { perror("scratch file"); abort(); }
    for (auto& p : s.pg) { size_t n = (size_t)std::min<uint64_t>(Shadow::P, s.len - p.first * Shadow::P); if (lseek(fd, (off_t)(p.first * Shadow::P), SEEK_SET) < 0 || ::write(fd, p.second.data(), n) != (ssize_t)n) { perror("scratch file"); abort(); } }
    if (ftruncate(fd, (off_t)s.len) != 0) { perror("scratch file"); abort(); } close(fd);
}
static void verifyFile(const string& path, const Shadow& s, const char* key)
{
    struct stat st; VH_CHECK(stat(path.c_str(), &st) == 0, key, "file vanished"); VH_EQ((uint64_t)st.st_size, s.len, key, "size of the file");
    int fd = open(path.c_str(), O_RDONLY); std::vector<uint8_t> b(Shadow::P); bool ok = true; uint64_t at = 0;
    auto unknown = [&](uint64_t a) { for (auto& u : s.unknown) if (a >= u.first && a < u.second) return true; return false; };
    std::set<uint64_t> pages; for (auto& p : s.pg) { pages.insert(p.first); pages.insert(p.first + 1); if (p.first) pages.insert(p.first - 1); } for (uint64_t p = 0; p < 8; ++p) pages.insert(p); if (s.len < (1u << 22)) for (uint64_t p = 0; p * Shadow::P < s.len; ++p) pages.insert(p);
    for (uint64_t p : pages) { Bytes w = s.read(p * Shadow::P, Shadow::P); if (w.empty()) continue; lseek(fd, (off_t)(p * Shadow::P), SEEK_SET); if (::read(fd, b.data(), w.size()) != (ssize_t)w.size()) { ok = false; at = p * Shadow::P; break; } if (memcmp(b.data(), w.data(), w.size()) != 0) for (size_t i = 0; i < w.size(); ++i) if (b[i] != w[i] && !unknown(p * Shadow::P + i)) { ok = false; at = p * Shadow::P + i; break; } if (!ok) break; }
    close(fd); VH_CHECK(ok, key, "content of the file differs at offset " << at);
}

// ---- a little http server -----------------------------------------------------------------------------------------------
struct Http
{
    int lfd = -1; int port = 0; std::mutex m; std::shared_ptr<const Bytes> body; int behaviour = 0; std::atomic<uint64_t> requests{ 0 }, inflight{ 0 }; string agent, cookie;
    // behaviour: 0 ranges; 1 ignores ranges (200); 2: 404 with a page; 3: 500; 4: redirect (302) from /r to /d; 5: closes in the middle; 6: chunked transfer; 7: small packets; 8: 416 without body beyond the end, 9: 403 with a page exactly as long as requested
    bool start()
    {
        lfd = socket(AF_INET, SOCK_STREAM, 0); if (lfd < 0) return false; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(lfd, (sockaddr*)&a, sizeof(a)) != 0 || listen(lfd, 64) != 0) { close(lfd); lfd = -1; return false; }
        socklen_t l = sizeof(a); getsockname(lfd, (sockaddr*)&a, &l); port = ntohs(a.sin_port); std::thread([this] { for (;;) { int c = accept(lfd, nullptr, nullptr); if (c < 0) return; int one = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one)); std::thread([this, c] { serve(c); }).detach(); } }).detach(); return true;
    }
    static bool sendAll(int c, const char* p, size_t n) { while (n) { ssize_t k = send(c, p, n, MSG_NOSIGNAL); if (k <= 0) return false; p += k; n -= (size_t)k; } return true; }
    void serve(int c)
    {
        string in; char buf[4096];
        for (;;)
        {
            size_t e; while ((e = in.find("\r\n\r\n")) == string::npos) { ssize_t k = recv(c, buf, sizeof(buf), 0); if (k <= 0) { close(c); return; } in.append(buf, (size_t)k); }
            string req = in.substr(0, e + 2); in.erase(0, e + 4); ++requests;
            std::shared_ptr<const Bytes> b; int h; { std::lock_guard<std::mutex> l(m); b = body; h = behaviour; size_t q = req.find("User-Agent: "); agent = q == string::npos ? "" : req.substr(q + 12, req.find("\r\n", q) - q - 12); q = req.find("Cookie: "); cookie = q == string::npos ? "" : req.substr(q + 8, req.find("\r\n", q) - q - 8); }
            uint64_t lo = 0, hi = b->empty() ? 0 : b->size() - 1; bool range = false; size_t q = req.find("Range: bytes="); if (q != string::npos) { unsigned long long x = 0, y = 0; if (sscanf(req.c_str() + q + 13, "%llu-%llu", &x, &y) == 2) { range = true; lo = x; hi = y; } }
            uint64_t asked = hi - lo + 1; string status = "206 Partial Content", extra; Bytes out; bool chunked = false, cut = false; size_t piece = 1 << 20;
            string page = "<html><body>this is not the document</body></html>";
            auto ranged = [&] { if (!range) { status = "200 OK"; out = *b; } else if (lo >= b->size() || hi < lo) { status = "416 Range Not Satisfiable"; if (h != 8) out.assign(page.begin(), page.end()); } else { hi = std::min<uint64_t>(hi, b->size() - 1); out.assign(b->begin() + (long)lo, b->begin() + (long)hi + 1); extra = "Content-Range: bytes " + std::to_string(lo) + "-" + std::to_string(hi) + "/" + std::to_string(b->size()) + "\r\n"; } };
            switch (h)
            {
            case 1: status = "200 OK"; out = *b; break;
            case 2: status = "404 Not Found"; out.assign(page.begin(), page.end()); break;
            case 3: status = "500 Internal Server Error"; out.assign(page.begin(), page.begin() + 20); break;
            case 4: if (req.compare(0, 6, "GET /r") == 0) { status = "302 Found"; extra = "Location: /d\r\n"; out.assign(page.begin(), page.end()); } else ranged(); break;
            case 5: ranged(); cut = true; break;
            case 6: ranged(); chunked = true; break;
            case 7: ranged(); piece = 700; break;
            case 9: status = "403 Forbidden"; out.assign((size_t)std::min<uint64_t>(asked, 100000), (uint8_t)'x'); break;
            default: ranged(); break;
            }
            string head = "HTTP/1.1 " + status + "\r\n" + extra + (chunked ? "Transfer-Encoding: chunked\r\n" : "Content-Length: " + std::to_string(out.size()) + "\r\n") + "Content-Type: application/octet-stream\r\n\r\n"; bool ok = sendAll(c, head.data(), head.size()); size_t n = cut ? out.size() / 2 : out.size();
            if (chunked) { for (size_t i = 0; ok && i < n;) { size_t k = std::min<size_t>(n - i, 1 + (lo * 31 + i * 7) % 3000); char t[32]; snprintf(t, sizeof(t), "%zx\r\n", k); ok = sendAll(c, t, strlen(t)) && sendAll(c, (const char*)&out[i], k) && sendAll(c, "\r\n", 2); i += k; } ok = ok && sendAll(c, "0\r\n\r\n", 5); }
            else for (size_t i = 0; ok && i < n;) { size_t k = std::min(piece, n - i); ok = sendAll(c, (const char*)&out[i], k); i += k; }
            if (!ok || cut) { shutdown(c, SHUT_RDWR); close(c); return; }
        }
    }
};
static Http* http() { static Http* h = nullptr; static bool tried = false; if (!tried) { tried = true; for (const char* e : { "http_proxy", "HTTP_PROXY", "https_proxy", "all_proxy", "ALL_PROXY", "HTTPS_PROXY" }) unsetenv(e); h = new Http; h->body = std::make_shared<Bytes>(); if (!h->start()) h = nullptr; } return h; }

// ---- input streams --------------------------------------------------------------------------------------------------------
static const char* kIn[] = { "CreateStreamFromFile", "default(utf8)", "default(wide)", "pread", "c_runtime", "pread(wide)", "c_runtime(wide)" };
static std::shared_ptr<libCZI::IStream> openIn(int kind, const string& path)
{
    StreamsFactory::CreateStreamInfo i; i.class_name = kind == 3 || kind == 5 ? "pread_file_inputstream" : "c_runtime_file_inputstream";
    switch (kind) { case 0: return libCZI::CreateStreamFromFile(W(path).c_str()); case 1: return StreamsFactory::CreateDefaultStreamForFile(path.c_str()); case 2: return StreamsFactory::CreateDefaultStreamForFile(W(path).c_str()); case 3: case 4: return StreamsFactory::CreateStream(i, path); default: return StreamsFactory::CreateStream(i, W(path)); }
}
static bool isCrt(int kind) { return kind == 4 || kind == 6; }

struct Rd { uint64_t got = 0; bool thrown = false; string what; Bytes d; };
template <class S> static Rd doRead(S* s, uint64_t off, uint64_t size, bool wantCount = true)
{
    Rd o; std::unique_ptr<uint8_t[]> b(new uint8_t[(size_t)size]); memset(b.get(), 0x5A, (size_t)size); o.got = ~0ull;
    try { s->Read(off, b.get(), size, wantCount ? &o.got : nullptr); } catch (std::exception& e) { o.thrown = true; o.what = e.what(); }
    o.d.assign(b.get(), b.get() + size); return o;
}
static string at(uint64_t off, uint64_t size) { return "read of " + std::to_string(size) + " bytes at " + std::to_string(off) + ": "; }
/// strict: exactly what the shadow says; atEnd: a read that starts at or beyond the end may also throw
static void judge(const Rd& g, const Bytes& want, uint64_t off, uint64_t size, const string& who, bool mayThrowAtEnd, const Shadow* sh = nullptr, bool counted = true)
{
    ctx().evals++;
    if (g.thrown) { if (want.empty() && mayThrowAtEnd) { ev("end-refused"); return; } fail("read-refused", who + " " + at(off, size) + g.what); }
    if (counted) VH_EQ(g.got, (uint64_t)want.size(), "read-count", who + " " + at(off, size));
    for (size_t i = 0; i < want.size(); ++i) if (g.d[i] != want[i])
    {
        bool u = false; if (sh) for (auto& x : sh->unknown) u |= off + i >= x.first && off + i < x.second;
        if (!u) fail("read-content", who + " " + at(off, size) + "byte " + std::to_string(i) + " is wrong");
    }
    ev(want.size() == size ? "read-full" : want.empty() ? "read-at-end" : "read-short"); ctx().seenHash(hash64(want.data(), want.size(), off * 31 + size));
}
static std::pair<uint64_t, uint64_t> anyRange(Rng& r, uint64_t len, const std::vector<uint64_t>& marks)
{
    uint64_t base = marks.empty() || r.chance(40) ? r.below(len + 1) : r.pick(marks); uint64_t off = r.chance(30) ? base : base + r.below(5000); if (r.chance(30)) off -= std::min(off, r.below(5000)); if (r.chance(5)) off = len + r.below(3); if (r.chance(3)) off = len + r.below(1ull << 40);
    uint64_t size = r.pick({ r.below(16), r.below(300), r.below(9000), r.below(70000), (uint64_t)4096, (uint64_t)4095 }); return { off, size };
}
static Bytes someBytes(Rng& r, uint64_t n) { return r.bytes((size_t)n); }
static Shadow anyShadow(Rng& r, std::vector<uint64_t>& marks)
{
    Shadow s; int kind = r.range(0, 9);
    if (kind == 0) { }
    else if (kind < 7) { Bytes b = someBytes(r, r.pick({ r.below(50), r.below(5000), r.below(100000), (uint64_t)4096 })); s.write(0, b.data(), b.size()); }
    else { for (int i = r.range(1, 3); i > 0; --i) { uint64_t o = r.pick<uint64_t>({ (1ull << 31) - 700, (1ull << 32) - 300, (1ull << 32) + 5, (1ull << 33) + 11, r.below(1ull << 36) }); Bytes b = someBytes(r, r.below(9000) + 1); s.write(o, b.data(), b.size()); marks.push_back(o); } ev("sparse-file"); }
    return s;
}

// ---- A: histories of reads and writes on files -------------------------------------------------------------------------------
static void fileHistory(Rng& r)
{
    std::vector<uint64_t> marks; Shadow s = anyShadow(r, marks); string path = newPath(r); bool existing = r.chance(75) || s.len > 0; if (existing) createFile(path, s); auto before = listing();
    std::shared_ptr<libCZI::IOutputStream> out; std::shared_ptr<libCZI::IInputOutputStream> io; int wk = r.range(0, 4); string how;
    if (wk == 1 || wk == 2) { bool over = existing ? true : r.chance(50); out = wk == 1 ? libCZI::CreateOutputStreamForFile(W(path).c_str(), over) : libCZI::CreateOutputStreamForFileUtf8(path.c_str(), over); how = "output"; if (existing && s.len) { marks.clear(); s = Shadow(); ev("truncated"); } existing = true; }
    else if (wk >= 3) { io = libCZI::CreateInputOutputStreamForFile(W(path).c_str()); how = "input-output"; existing = true; ev("opened-for-update"); }
    else if (!existing) { createFile(path, s); existing = true; }
    verifyFile(path, s, "open-changes-file"); string base = path.substr(path.rfind('/') + 1); before.insert(base); VH_CHECK(listing() == before, "stray-files", how);
    std::vector<std::pair<int, std::shared_ptr<libCZI::IStream>>> ins; for (int i = r.range(io ? 0 : 1, 3); i > 0; --i) { int k = r.range(0, 6); if (isCrt(k) && (out || io)) k = 0; ins.emplace_back(k, openIn(k, path)); VH_CHECK(ins.back().second != nullptr, "create", kIn[k]); ev(string("in:") + kIn[k]); }
    ctx().currentDesc = "file " + how + " of " + std::to_string(s.len) + " bytes, " + std::to_string(ins.size()) + " input streams";
    int mode = r.pick({ 0, 0, 1, 3, 2 }); std::unique_ptr<Injected> inj; if (mode) inj.reset(new Injected(r, mode));
    bool dirty = false; // (something is not known: a write failed)
    int n = r.range(4, 40);
    for (int k = 0; k < n; ++k)
    {
        if ((out || io) && r.chance(50))
        {
            auto rg = anyRange(r, std::min<uint64_t>(s.len, 1ull << 37), marks); uint64_t off = std::min<uint64_t>(rg.first, (1ull << 40)); Bytes b = someBytes(r, rg.second); std::unique_ptr<uint8_t[]> p(new uint8_t[b.size()]); if (!b.empty()) memcpy(p.get(), b.data(), b.size());
            bool cnt = r.chance(85); uint64_t done = ~0ull; bool fault = r.chance(4); bool thrown = false; string what; uint64_t eio = 0;
            {
                std::unique_ptr<Injected> f; if (fault) { inj.reset(); f.reset(new Injected(r, mode | 4, r.range(0, 2))); }
                try { if (out) out->Write(off, p.get(), b.size(), cnt ? &done : nullptr); else io->Write(off, p.get(), b.size(), cnt ? &done : nullptr); } catch (std::exception& e) { thrown = true; what = e.what(); }
                if (fault) eio = g_in.eio;
            }
            if (fault && mode) inj.reset(new Injected(r, mode));
            if (eio) { VH_CHECK(thrown, "write-error-hidden", "write of " << b.size() << " bytes at " << off << " reported " << done); s.unknown.emplace_back(off, off + b.size()); dirty = true; struct stat st; stat(path.c_str(), &st); VH_CHECK((uint64_t)st.st_size >= s.len && (uint64_t)st.st_size <= std::max<uint64_t>(s.len, off + b.size()), "write-elsewhere", "file size " << st.st_size); s.len = (uint64_t)st.st_size; ev("write-failed"); marks.push_back(off); continue; }
            VH_CHECK(!thrown, "write-refused", "write of " << b.size() << " bytes at " << off << ": " << what); if (cnt) VH_EQ(done, (uint64_t)b.size(), "write-count", "at " << off);
            s.write(off, b.data(), b.size()); if (dirty) { /* a range that was rewritten is known again */ std::vector<std::pair<uint64_t, uint64_t>> u; for (auto& x : s.unknown) { if (off + b.size() <= x.first || off >= x.second) u.push_back(x); else { if (x.first < off) u.emplace_back(x.first, off); if (off + b.size() < x.second) u.emplace_back(off + b.size(), x.second); } } s.unknown = u; }
            marks.push_back(off); marks.push_back(off + b.size()); ev("write"); if (off > 0xffffffffull) ev("write-beyond-4GB"); continue;
        }
        auto rg = anyRange(r, s.len, marks); int which = r.range(0, (int)ins.size() - (io ? 0 : 1)); if (ins.empty() && !io) break; bool cnt = r.chance(85);
        bool useIo = io && (which == (int)ins.size()); string who = useIo ? "input-output" : kIn[ins[(size_t)which].first];
        if (r.chance(2)) { uint64_t bad = r.pick<uint64_t>({ (uint64_t)1 << 63, ~0ull, ~0ull - 100 }); Rd g = useIo ? doRead(io.get(), bad, rg.second + 1) : doRead(ins[(size_t)which].second.get(), bad, rg.second + 1); VH_CHECK(g.thrown || g.got == 0, "impossible-offset", who << " gave " << g.got); ev("impossible-offset"); continue; }
        Bytes want = s.read(rg.first, rg.second); if (want.size() && rg.first > 0xffffffffull) ev("read-beyond-4GB");
        if (mode && r.chance(4))
        {
            inj.reset(); uint64_t eio; Rd g; { Injected f(r, mode | 4, r.range(0, 2)); g = useIo ? doRead(io.get(), rg.first, rg.second) : doRead(ins[(size_t)which].second.get(), rg.first, rg.second); eio = g_in.eio; }
            if (eio) { VH_CHECK(g.thrown, "read-error-hidden", who << " " << at(rg.first, rg.second) << "reported " << g.got); ev("read-failed"); } else judge(g, want, rg.first, rg.second, who, false, &s);
            inj.reset(new Injected(r, mode)); continue;
        }
        Rd g = useIo ? doRead(io.get(), rg.first, rg.second, cnt) : doRead(ins[(size_t)which].second.get(), rg.first, rg.second, cnt); judge(g, want, rg.first, rg.second, who, false, &s, cnt);
    }
    inj.reset(); ins.clear(); out.reset(); io.reset(); verifyFile(path, s, "final-content"); VH_CHECK(listing() == before, "stray-files", how); unlink(path.c_str()); ev("file-history");
}

// ---- B: opening and its refusals --------------------------------------------------------------------------------------------------
static void opening(Rng& r)
{
    std::vector<uint64_t> marks; string path = newPath(r); auto none = listing(); ctx().currentDesc = "opening " + path;
    int kind = r.range(0, 6); bool thrown = false; try { auto s = openIn(kind, path); thrown = s == nullptr; } catch (std::exception&) { thrown = true; } VH_CHECK(thrown, "open-missing", kIn[kind] << " opened a file which does not exist"); VH_CHECK(listing() == none, "stray-files", "opening for reading created a file"); ev("missing-refused");
    { string dir = scratchDir(); thrown = false; uint64_t got = 0; try { auto s = openIn(kind, dir); uint8_t b[20]; s->Read(0, b, sizeof(b), &got); } catch (std::exception&) { thrown = true; } VH_CHECK(thrown, "read-error-hidden", kIn[kind] << " reading a directory gave " << got << " bytes"); ev("directory-refused"); }
    Shadow s; Bytes b = someBytes(r, r.below(5000) + 1); s.write(0, b.data(), b.size()); createFile(path, s);
    thrown = false; try { if (r.chance(50)) libCZI::CreateOutputStreamForFile(W(path).c_str(), false); else libCZI::CreateOutputStreamForFileUtf8(path.c_str(), false); } catch (std::exception&) { thrown = true; } VH_CHECK(thrown, "overwrites", "an existing file was opened for writing without overwriteExisting"); verifyFile(path, s, "overwrites"); ev("existing-refused");
    { auto io = libCZI::CreateInputOutputStreamForFile(W(path).c_str()); judge(doRead(io.get(), 0, b.size() + 10), b, 0, b.size() + 10, "input-output", false); } verifyFile(path, s, "update-truncates");
    { std::vector<std::shared_ptr<libCZI::IStream>> v; for (int k = 0; k < 7; ++k) v.push_back(openIn(k, path)); for (int k = 0; k < 7; ++k) judge(doRead(v[(size_t)k].get(), 0, b.size()), b, 0, b.size(), kIn[k], false); } verifyFile(path, s, "input-changes-file");
    // a limit for the file size: the kernel transfers a part, then refuses
    if (r.chance(60))
    {
        struct rlimit old, nw; getrlimit(RLIMIT_FSIZE, &old); uint64_t lim = s.len + 1 + r.below(3000); nw = old; nw.rlim_cur = lim; uint64_t off = r.below(s.len + 1); Bytes d = someBytes(r, lim - off + 1 + r.below(5000)); uint64_t done = ~0ull; thrown = false; signal(SIGXFSZ, SIG_IGN);
        { auto io = libCZI::CreateInputOutputStreamForFile(W(path).c_str()); setrlimit(RLIMIT_FSIZE, &nw); try { io->Write(off, d.data(), d.size(), &done); } catch (std::exception&) { thrown = true; } setrlimit(RLIMIT_FSIZE, &old); }
        VH_CHECK(thrown || done < d.size(), "write-error-hidden", "write beyond the limit reported " << done << " of " << d.size()); if (!thrown) { s.write(off, d.data(), done); verifyFile(path, s, "write-count"); } ev("file-limit");
    }
    if (access("/dev/full", W_OK) == 0)
    {
        thrown = false; uint64_t done = ~0ull; try { if (r.chance(50)) { auto o = libCZI::CreateInputOutputStreamForFile(L"/dev/full"); o->Write(r.below(100), b.data(), b.size(), &done); } else { auto o = libCZI::CreateOutputStreamForFileUtf8("/dev/full", true); o->Write(0, b.data(), b.size(), &done); } } catch (std::exception&) { thrown = true; }
        VH_CHECK(thrown || done < b.size(), "write-error-hidden", "/dev/full reported " << done << " of " << b.size()); ev("device-full");
    }
    thrown = false; try { libCZI::CreateOutputStreamForFileUtf8((scratchDir() + "/no/such/dir/x").c_str(), true); } catch (std::exception&) { thrown = true; } VH_CHECK(thrown, "open-missing", "output in a directory that does not exist");
    StreamsFactory::CreateStreamInfo ci; ci.class_name = "no_such_stream"; VH_CHECK(StreamsFactory::CreateStream(ci, path) == nullptr && StreamsFactory::CreateStream(ci, W(path)) == nullptr, "create", "unknown class");
    StreamsFactory::StreamClassInfo info; int nc = StreamsFactory::GetStreamClassesCount(); VH_CHECK(!StreamsFactory::GetStreamInfoForClass(-1, info) && !StreamsFactory::GetStreamInfoForClass(nc, info), "create", "class index"); for (int i = 0; i < nc; ++i) VH_CHECK(StreamsFactory::GetStreamInfoForClass(i, info) && !info.class_name.empty(), "create", "class " << i);
    unlink(path.c_str()); ctx().seenHash(hash64(b.data(), b.size(), (uint64_t)kind)); ev("opening");
}

// ---- C: memory ----------------------------------------------------------------------------------------------------------------------
static void bigMemory(Rng& r) // (a sparse mapping of several GB)
{
    Shadow s; std::vector<uint64_t> marks; for (int i = r.range(1, 3); i > 0; --i) { uint64_t o = r.pick<uint64_t>({ (1ull << 31) - 700, (1ull << 32) - 300, (1ull << 32) + 5, (1ull << 33) + 11, r.below(1ull << 34) }); Bytes b = someBytes(r, r.below(9000) + 1); s.write(o, b.data(), b.size()); marks.push_back(o); }
    size_t n = (size_t)s.len; void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { ev("no-mapping"); return; }
    std::shared_ptr<uint8_t> p((uint8_t*)m, [n](uint8_t* q) { munmap(q, n); });
    for (uint64_t k : { 1ull << 31, 1ull << 32, 1ull << 33 }) { if (s.len > k) { marks.push_back(s.len - k); marks.push_back(s.len - k - r.below(200)); Bytes b = someBytes(r, r.below(400) + 1); s.write(s.len - k, b.data(), b.size()); } } if (s.len > 0) { Bytes b = someBytes(r, 50); s.write(0, b.data(), std::min<uint64_t>(50, s.len)); }
    for (auto& g : s.pg) for (uint64_t i = 0, a = g.first * Shadow::P; i < Shadow::P && a + i < s.len; ++i) if (g.second[i]) p.get()[a + i] = g.second[i];
    ctx().currentDesc = "memory of " + std::to_string(s.len) + " bytes"; auto st = libCZI::CreateStreamFromMemory(p, n); bool drop = r.chance(50); if (drop) p.reset();
    for (int k = r.range(5, 30); k > 0; --k) { auto rg = anyRange(r, s.len, marks); bool cnt = r.chance(85); judge(doRead(st.get(), rg.first, rg.second, cnt), s.read(rg.first, rg.second), rg.first, rg.second, "memory", true, nullptr, cnt); }
    ev(s.len > (1ull << 32) ? "memory-over-4gb" : "memory-under-4gb");
}
static void memory(Rng& r)
{
    if (r.chance(12)) { bigMemory(r); return; }
    Bytes b = someBytes(r, r.pick({ (uint64_t)1, r.below(30) + 1, r.below(5000) + 1, r.below(100000) + 1 })); std::shared_ptr<libCZI::IStream> st; std::shared_ptr<libCZI::IAttachment> keep; bool viaAtt = r.chance(35);
    ctx().currentDesc = "memory of " + std::to_string(b.size()) + " bytes" + (viaAtt ? " (attachment)" : "");
    if (viaAtt)
    {
        auto f = makeFile(); { auto w = libCZI::CreateCZIWriter(); w->Create(std::make_shared<MemOut>(f), nullptr); libCZI::AddAttachmentInfo a{}; a.contentGuid.Data1 = 7; a.SetContentFileType("BIN"); a.SetName("x"); a.dataSize = (uint32_t)b.size(); a.ptrData = b.data(); w->SyncAddAttachment(a); w->Close(); }
        auto rd = libCZI::CreateCZIReader(); rd->Open(std::make_shared<MemIn>(f)); auto at = rd->ReadAttachment(0); st = libCZI::CreateStreamFromMemory(at.get()); if (r.chance(50)) { rd->Close(); } ev("attachment-stream"); // (reader and attachment go away, the stream keeps the data)
    }
    else { std::shared_ptr<uint8_t> p(new uint8_t[b.size()], std::default_delete<uint8_t[]>()); memcpy(p.get(), b.data(), b.size()); st = libCZI::CreateStreamFromMemory(p, b.size()); }
    Shadow s; s.write(0, b.data(), b.size()); std::vector<uint64_t> marks{ 0, b.size() };
    for (int k = r.range(3, 25); k > 0; --k) { auto rg = anyRange(r, s.len, marks); if (r.chance(5)) rg.first = r.pick<uint64_t>({ ~0ull, ~0ull - 5, 1ull << 63, 1ull << 32 }); bool cnt = r.chance(85); judge(doRead(st.get(), rg.first, rg.second, cnt), s.read(rg.first, rg.second), rg.first, rg.second, "memory", true, nullptr, cnt); }
    ev("memory");
}

// ---- D: http --------------------------------------------------------------------------------------------------------------------------
static void overHttp(Rng& r)
{
    Http* h = http(); if (!h) { ev("no-loopback"); return; }
    StreamsFactory::CreateStreamInfo ci; ci.class_name = "curl_http_inputstream"; auto body = std::make_shared<Bytes>(someBytes(r, r.pick({ (uint64_t)1, (uint64_t)23, r.below(100) + 1, r.below(20000) + 1, r.below(300000) + 1 }))); int beh = r.pick({ 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9 });
    { std::lock_guard<std::mutex> l(h->m); h->body = body; h->behaviour = beh; }
    bool follow = r.chance(50); if (follow) { ci.property_bag[StreamsFactory::StreamProperties::kCurlHttp_FollowLocation] = StreamsFactory::Property(true); if (r.chance(50)) ci.property_bag[StreamsFactory::StreamProperties::kCurlHttp_MaxRedirs] = StreamsFactory::Property(5); }
    string ua, ck; if (r.chance(30)) { ua = "agent-" + std::to_string(r.below(1000)); ci.property_bag[StreamsFactory::StreamProperties::kCurlHttp_UserAgent] = StreamsFactory::Property(ua); } if (r.chance(30)) { ck = "a=" + std::to_string(r.below(1000)); ci.property_bag[StreamsFactory::StreamProperties::kCurlHttp_Cookie] = StreamsFactory::Property(ck); }
    if (r.chance(40)) { ci.property_bag[StreamsFactory::StreamProperties::kCurlHttp_Timeout] = StreamsFactory::Property(100); ci.property_bag[StreamsFactory::StreamProperties::kCurlHttp_ConnectTimeout] = StreamsFactory::Property(50); }
    string url = "http://127.0.0.1:" + std::to_string(h->port) + (beh == 4 ? "/r" : "/d.czi"); ctx().currentDesc = "http behaviour " + std::to_string(beh) + " document of " + std::to_string(body->size()) + " bytes, follow=" + std::to_string(follow);
    StreamsFactory::Initialize(); std::shared_ptr<libCZI::IStream> st = r.chance(70) ? StreamsFactory::CreateStream(ci, url) : StreamsFactory::CreateStream(ci, W(url)); if (!st) { ev("no-curl"); return; }
    Shadow s; s.write(0, body->data(), body->size()); std::vector<uint64_t> marks{ 0, body->size() };
    for (int k = r.range(2, 8); k > 0; --k)
    {
        auto rg = anyRange(r, s.len, marks); if (beh == 1 && r.chance(50)) rg.second = s.len + r.below(30); if (beh == 1 && r.chance(40)) rg.second = r.below(60); if (beh == 1 && r.chance(40)) rg.first = 0; bool cnt = r.chance(90); Bytes want = s.read(rg.first, rg.second); Rd g = doRead(st.get(), rg.first, rg.second, cnt); string who = "http";
        if (rg.second == 0) { judge(g, want, rg.first, rg.second, who, true, nullptr, cnt); continue; }
        bool error = beh == 2 || beh == 3 || beh == 9 || (beh == 4 && !follow); string d = at(rg.first, rg.second) + "behaviour " + std::to_string(beh);
        if (error) { VH_CHECK(g.thrown || (cnt && g.got == 0), "http-error-hidden", d << " gave " << g.got << " bytes"); ev("http-error"); }
        else if (beh == 1 || beh == 5) { // may be refused, but if not then it must be right
            if (g.thrown) { ev(beh == 1 ? "http-no-ranges-refused" : "http-cut-refused"); VH_CHECK(!(beh == 1 && rg.first == 0 && rg.second >= s.len), "read-refused", d << " " << g.what); } else { if (beh == 5 && want.size() > 1) fail("http-error-hidden", d + " connection was cut"); judge(g, want, rg.first, rg.second, who, true, nullptr, cnt); ev("http-no-ranges"); } }
        else { judge(g, want, rg.first, rg.second, who, true, nullptr, cnt); if (beh == 4) ev("http-redirected"); ev("http-read"); }
        if (!g.thrown) { std::lock_guard<std::mutex> l(h->m); if (!ua.empty()) VH_EQ(h->agent, ua, "http-option", "user agent"); if (!ck.empty()) VH_EQ(h->cookie, ck, "http-option", "cookie"); }
    }
    if (r.chance(30)) { std::lock_guard<std::mutex> l(h->m); h->behaviour = 0; if (beh == 4) return; } else return; // the stream works again once the server does
    auto rg = anyRange(r, s.len, marks); judge(doRead(st.get(), rg.first, rg.second), s.read(rg.first, rg.second), rg.first, rg.second, "http (recovered)", true); ev("http-recovered");
}

// ---- E: many threads on one stream -------------------------------------------------------------------------------------------------
static void threads(Rng& r, bool tsan)
{
    Bytes b = someBytes(r, r.below(60000) + 4000); Shadow s; s.write(0, b.data(), b.size()); int kind = r.range(0, tsan ? 8 : 9); string path = newPath(r); std::shared_ptr<libCZI::IStream> st; std::shared_ptr<libCZI::IInputOutputStream> io; string who;
    if (kind <= 6) { createFile(path, s); st = openIn(kind, path); who = kIn[kind]; } else if (kind == 7) { auto p = std::make_shared<Bytes>(b); st = libCZI::CreateStreamFromMemory(std::shared_ptr<const void>(p, p->data()), p->size()); who = "memory"; } else if (kind == 8) { createFile(path, s); io = libCZI::CreateInputOutputStreamForFile(W(path).c_str()); who = "input-output"; }
    else { Http* h = http(); if (!h) return; { std::lock_guard<std::mutex> l(h->m); h->body = std::make_shared<Bytes>(b); h->behaviour = 0; } StreamsFactory::Initialize(); StreamsFactory::CreateStreamInfo ci; ci.class_name = "curl_http_inputstream"; st = StreamsFactory::CreateStream(ci, "http://127.0.0.1:" + std::to_string(h->port) + "/d"); if (!st) return; who = "http"; }
    ctx().currentDesc = "threads on " + who; int nt = r.range(2, 5), per = kind == 9 ? 6 : 40; std::vector<string> err((size_t)nt); std::vector<std::thread> th; std::atomic<int> ready{ 0 }; std::vector<uint64_t> seeds; for (int i = 0; i < nt; ++i) seeds.push_back(r.next()); bool lag = r.chance(50);
    std::unique_ptr<Injected> inj; if (r.chance(30)) inj.reset(new Injected(r, 1));
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        Rng q(seeds[(size_t)t]); ++ready; while (ready < nt) std::this_thread::yield();
        for (int k = 0; k < per; ++k)
        {
            uint64_t off = q.below(b.size()), n = 1 + q.below(q.chance(50) ? 64 : 6000); std::vector<uint8_t> d((size_t)n); uint64_t got = 0; try { if (io) io->Read(off, d.data(), n, &got); else st->Read(off, d.data(), n, &got); } catch (std::exception& e) { err[(size_t)t] = e.what(); return; }
            uint64_t w = std::min<uint64_t>(n, b.size() - off); if (got != w || memcmp(d.data(), &b[off], (size_t)w) != 0) { err[(size_t)t] = at(off, n) + "got " + std::to_string(got) + (got == w ? " wrong bytes" : " bytes"); return; }
            if (lag && q.chance(20)) std::this_thread::yield();
        } });
    for (auto& t : th) t.join(); inj.reset(); for (auto& e : err) VH_CHECK(e.empty(), "threads", who << ": " << e); unlink(path.c_str()); ev("threads:" + who); ev("threads"); ctx().seenHash(hash64(b.data(), 64, (uint64_t)kind));
}

static bool g_tsan = false;
static void oneCase(Rng& r, uint64_t)
{
    if (g_tsan) { threads(r, true); return; }
    int k = r.range(0, 99);
    if (k < 48) fileHistory(r); else if (k < 58) opening(r); else if (k < 74) memory(r); else if (k < 90) overHttp(r); else threads(r, false);
}
int main(int argc, char** argv)
{
    g_tsan = getenv("VERIF_THREADS_ONLY") != nullptr; int rc = runMain(argc, argv, "C22", Options{ 4000, 80000 }, oneCase); rmdir(scratchDir().c_str()); return rc;
}
