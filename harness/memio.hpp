// In-memory stream objects with recording and fault injection.
#pragma once
#include "vh.hpp"
#include "libCZI.h"

namespace vh
{
    struct IoEvent { char op; uint64_t off; uint64_t size; uint64_t done; };

    /// The storage behind the stream objects.
    struct MemFile
    {
        std::vector<uint8_t> data;
        std::vector<IoEvent> log;
        bool record = false;
        std::mutex mtx;
        // fault injection: operation number (reads and writes counted separately) -> action
        uint64_t readNo = 0, writeNo = 0;
        int64_t failReadAt = -1, failWriteAt = -1;   // throws at that operation
        int64_t shortReadAt = -1, shortWriteAt = -1; // transfers only `shortBytes` (less than asked) bytes, without an exception
        uint64_t shortBytes = 0;
        bool failSticky = false;                     // every operation from failXAt on fails
        uint64_t faultsDelivered = 0;
        static constexpr uint64_t kMaxSize = 1ull << 31; uint64_t maxSize = kMaxSize;

        // a hole of zeroes (e.g. of several GB) at this position of the file, for which no memory is used: `data` holds what lies before and behind it
        uint64_t holeAt = 0, holeLen = 0; bool holeDamaged = false;
        uint64_t fileSize() const { return holeLen && data.size() > holeAt ? data.size() + holeLen : data.size(); }
        uint64_t inData(uint64_t off) const { return !holeLen || off < holeAt ? off : off < holeAt + holeLen ? holeAt : off - holeLen; } // position in `data`
        // split a transfer into the parts before, in and behind the hole
        template <typename F> void split(uint64_t off, uint64_t size, F f) const
        {
            uint64_t done = 0;
            while (done < size)
            {
                uint64_t o = off + done, n = size - done; bool in = holeLen && o >= holeAt && o < holeAt + holeLen;
                if (in) n = std::min(n, holeAt + holeLen - o); else if (holeLen && o < holeAt) n = std::min(n, holeAt - o);
                f(in, inData(o), done, n); done += n;
            }
        }

        void read(uint64_t off, void* p, uint64_t size, uint64_t* done)
        {
            std::lock_guard<std::mutex> lck(mtx);
            int64_t n = (int64_t)readNo++;
            if (failReadAt >= 0 && (n == failReadAt || (failSticky && n >= failReadAt))) { ++faultsDelivered; throw std::runtime_error("vh: injected read error"); }
            uint64_t k = off >= fileSize() ? 0 : std::min<uint64_t>(size, fileSize() - off);
            if (n == shortReadAt && k > 0) { uint64_t k2 = std::min<uint64_t>(k - 1, shortBytes); if (k2 < k) { ++faultsDelivered; k = k2; } }
            if (k) split(off, k, [&](bool in, uint64_t o, uint64_t d, uint64_t n) { if (in) memset((uint8_t*)p + d, 0, (size_t)n); else memcpy((uint8_t*)p + d, data.data() + o, (size_t)n); });
            if (done) *done = k;
            if (record) log.push_back({ 'r', off, size, k });
        }
        void write(uint64_t off, const void* p, uint64_t size, uint64_t* done)
        {
            std::lock_guard<std::mutex> lck(mtx);
            int64_t n = (int64_t)writeNo++;
            if (failWriteAt >= 0 && (n == failWriteAt || (failSticky && n >= failWriteAt))) { ++faultsDelivered; throw std::runtime_error("vh: injected write error"); }
            uint64_t k = size;
            if (n == shortWriteAt && k > 0) { k = std::min<uint64_t>(k - 1, shortBytes); ++faultsDelivered; }
            if (off + k < off || (k && inData(off + k - 1) + 1 > maxSize)) throw std::runtime_error("vh: file would become larger than 2 GB");
            if (k)
            {
                split(off, k, [&](bool in, uint64_t o, uint64_t d, uint64_t n)
                {
                    const uint8_t* q = (const uint8_t*)p + d;
                    if (in) { for (uint64_t i = 0; i < n; ++i) if (q[i]) holeDamaged = true; return; }
                    if (o + n > data.size()) data.resize((size_t)(o + n));
                    memcpy(data.data() + o, q, (size_t)n);
                });
            }
            if (done) *done = k;
            if (record) log.push_back({ 'w', off, size, k });
        }
    };
    using MemFileP = std::shared_ptr<MemFile>;
    inline MemFileP makeFile() { return std::make_shared<MemFile>(); }
    inline MemFileP makeFile(std::vector<uint8_t> d) { auto f = std::make_shared<MemFile>(); f->data = std::move(d); return f; }

    struct MemIn : libCZI::IStream
    {
        MemFileP f; explicit MemIn(MemFileP f) : f(std::move(f)) {}
        void Read(uint64_t off, void* p, uint64_t size, uint64_t* done) override { f->read(off, p, size, done); }
    };
    struct MemOut : libCZI::IOutputStream
    {
        MemFileP f; explicit MemOut(MemFileP f) : f(std::move(f)) {}
        void Write(uint64_t off, const void* p, uint64_t size, uint64_t* done) override { f->write(off, p, size, done); }
    };
    struct MemInOut : libCZI::IInputOutputStream
    {
        MemFileP f; explicit MemInOut(MemFileP f) : f(std::move(f)) {}
        void Read(uint64_t off, void* p, uint64_t size, uint64_t* done) override { f->read(off, p, size, done); }
        void Write(uint64_t off, const void* p, uint64_t size, uint64_t* done) override { f->write(off, p, size, done); }
    };
}
