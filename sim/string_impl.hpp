// Simulated world of strings (heap strings: C10, C11, C12; arena strings: C13), included by string_world.cc and astring_world.cc.
// Every operation is applied to a real string and to a std::basic_string (the reference model).
#include <fmt/format.h>

#include <istream>
#include <list>
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <vector>

#include "arena/arena.hpp"
#include "blockheap.hpp"
#include "core.hpp"
#include "string/arena_string.hpp"
#include "string/string.hpp"

using namespace sim;
namespace sm = stdb::memory;

// the character type: char by default, the wide variants are built with wchar_t and char16_t
#ifndef SIM_CHAR
#define SIM_CHAR char
#define SIM_NARROW
#endif

namespace {
using E = SIM_CHAR;
#ifdef SIM_ARENA_STRING
constexpr bool kArena = true;
using S = sm::arena_basic_string<E>;
using Alloc = std::pmr::polymorphic_allocator<E>;
#define VALUE_PROPS "C13"
#define OOM_PROPS "C13"
#define PFX "C13"
#else
constexpr bool kArena = false;
using S = sm::basic_string<E>;
using Alloc = std::allocator<E>;
#define VALUE_PROPS "C10"
#define OOM_PROPS "C11"
#define PFX "C10"
#endif
using M = std::basic_string<E>;
using SV = std::basic_string_view<E>;
#ifdef SIM_NO_STREAMS
using SE = char;  // the character type has no streams
#else
using SE = E;
#endif
using IStream = std::basic_istream<SE>;
using OStream = std::basic_ostream<SE>;
using SM = std::basic_string<SE>;
M lit(const char* p) {
    M m;
    for (; *p; ++p) m.push_back(E(*p));
    return m;
}

constexpr int kSlots = 6;
constexpr int kArenas = 3;
constexpr int kStreams = 2;

enum OpCode {
    NEW, DEL, ASSIGN, APPEND, INSERT, ERASE, REPLACE, RESIZE, RESERVE, SHRINK, MUTATE, SWAP, CONCAT, SUBSTR, READ, HUGE_REQ,
    OOM, OUTAGE, HEAL, ARESET, STREAM, GETLINE, EXTRACT, SCTL, PRINT, QUERY, FORMAT, GIANT, CROWD
};
const std::vector<OpDesc> kOps = {
  {"construct", 5}, {"destroy", 1}, {"assign", 5}, {"append", 5}, {"insert", 5}, {"erase", 4}, {"replace", 5}, {"resize", 3},
  {"reserve", 2}, {"shrink_to_fit", 1}, {"mutate", 4}, {"swap", 3}, {"concat", 5}, {"substr", 5}, {"read", 3}, {"impossible", 3},
  {"fault_alloc_kth", 2}, {"fault_outage", 1}, {"faults_stop", 0}, {"arena_reset", 1}, {"stream", 5}, {"getline", 3},
  {"extract", 4}, {"stream_control", 3}, {"print", 5}, {"query", 5},
  {"format", 4}, {"print_giant", 1}, {"many_copies", 3},
};

struct Mismatch
{
    std::string kind, msg;
    bool oom;  // seen directly after a failed operation
};

// the bytes an operation gets from outside: exact heap buffers so that any over-read is seen
struct Buf
{
    char* base;
    E* p;
    std::size_t n;
    Buf(const M& m, unsigned off, bool zero) : n(m.size()) {
        Harness h;
        off &= 15 & ~unsigned(sizeof(E) - 1);
        std::size_t bytes = m.size() * sizeof(E) + (zero ? sizeof(E) : 0);
#ifdef NDEBUG
        bytes = (bytes + 15) & ~std::size_t(15);  // release builds read whole words of an aligned source
#endif
        base = static_cast<char*>(::malloc(off + bytes + (bytes == 0)));
        ::memset(base, 0x5a, off + bytes);
        p = reinterpret_cast<E*>(base + off);
        ::memcpy(p, m.data(), m.size() * sizeof(E));
        if (zero) p[m.size()] = 0;
    }
    ~Buf() {
        Harness h;
        ::free(base);
    }
};
// single pass iterator
struct InIt
{
    using iterator_category = std::input_iterator_tag;
    using value_type = E;
    using difference_type = std::ptrdiff_t;
    using pointer = const E*;
    using reference = const E&;
    const M* m = nullptr;
    std::size_t i = 0;
    const E& operator*() const { return (*m)[i]; }
    InIt& operator++() {
        ++i;
        return *this;
    }
    InIt operator++(int) {
        auto t = *this;
        ++i;
        return t;
    }
    bool operator==(const InIt& o) const { return i == o.i; }
};

struct IoErr
{};
// a character outside of ASCII
SE wide_char(Rng& r) {
    if (sizeof(SE) == 1) return SE(128 + r.below(128));
    return SE(r.pick<u32>({0xa0, 0x85, 0x100, 0x120, 0x2003, 0x3000, 0x10a, 0x1f600, 0xd7ff}));
}
// a stream buffer that delivers its data in simulated pieces and fails on demand
struct SimBuf : std::basic_streambuf<SE>
{
    SM data;
    u64 seed = 0;
    i64 mode = 0;
    i64 fail_at = -1;   // position at which delivery fails
    i64 fail_kind = 0;  // 1 throws once, 2 throws always, 3 pretends the end once
    std::size_t pos = 0;
    u64 nund = 0, nfail = 0;
    SE* cur = nullptr;
    ~SimBuf() override {
        Harness h;
        ::free(cur);
    }
    std::size_t consumed() const { return pos - std::size_t(egptr() - gptr()); }
    int_type underflow() override {
        Harness h;
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        ++nund;
        if (fail_at >= 0 && pos >= std::size_t(fail_at) && fail_kind) {
            ++nfail;
            if (fail_kind == 1) fail_kind = 0;
            if (fail_kind == 3) {
                fail_kind = 0;
                return traits_type::eof();
            }
            throw IoErr{};
        }
        if (pos >= data.size()) return traits_type::eof();
        std::size_t left = data.size() - pos;
        std::size_t n;
        switch (mode) {
            case 0: n = left; break;
            case 1: n = 1; break;
            case 2: n = 1 + mix2(seed, pos) % 7; break;
            case 3: n = 1 + mix2(seed, pos) % 90; break;
            default: n = 1 + mix2(seed, pos) % 400; break;
        }
        if (fail_at >= 0 && fail_kind && std::size_t(fail_at) > pos) n = std::min(n, std::size_t(fail_at) - pos);
        n = std::min(n, left);
        ::free(cur);
        cur = static_cast<SE*>(::malloc(n * sizeof(SE)));
        ::memcpy(cur, data.data() + pos, n * sizeof(SE));
        pos += n;
        setg(cur, cur, cur + n);
        return traits_type::to_int_type(*cur);
    }
};
struct SinkBuf : std::basic_streambuf<SE>
{
    SM out;
    std::size_t cap = ~std::size_t(0);
    bool throws = false;
    int_type overflow(int_type c) override {
        Harness h;
        if (out.size() >= cap) {
            if (throws) throw IoErr{};
            return traits_type::eof();
        }
        if (!traits_type::eq_int_type(c, traits_type::eof())) out.push_back(SE(c));
        return traits_type::not_eof(c);
    }
    std::streamsize xsputn(const SE* s, std::streamsize n) override {
        Harness h;
        std::size_t room = cap - std::min(cap, out.size());
        std::size_t k = std::min(room, std::size_t(n));
        out.append(s, k);
        if (k < std::size_t(n) && throws) throw IoErr{};
        return std::streamsize(k);
    }
};
#ifndef SIM_NO_STREAMS
// a locale in which other characters are spaces than in the C locale: ';' and ',' are, the tab is not
template <class C>
struct OddCtype : std::ctype<C>
{
    bool odd(C c, bool is) const { return c == C(';') || c == C(',') || (is && c != C('\t')); }
    bool do_is(std::ctype_base::mask m, C c) const override {
        bool r = std::ctype<C>::do_is(m, c);
        return m == std::ctype_base::space ? odd(c, r) : r;
    }
    const C* do_scan_is(std::ctype_base::mask m, const C* lo, const C* hi) const override {
        while (lo < hi && !do_is(m, *lo)) ++lo;
        return lo;
    }
    const C* do_scan_not(std::ctype_base::mask m, const C* lo, const C* hi) const override {
        while (lo < hi && do_is(m, *lo)) ++lo;
        return lo;
    }
};
template <>
struct OddCtype<char> : std::ctype<char>
{
    static const mask* table() {
        static std::vector<mask> t(classic_table(), classic_table() + table_size);
        t[';'] |= space;
        t[','] |= space;
        t['\t'] = mask(t['\t'] & ~space);
        return t.data();
    }
    OddCtype() : std::ctype<char>(table()) {}
};
const std::locale& odd_locale() {
    static const std::locale* l = new std::locale(std::locale::classic(), new OddCtype<SE>);
    return *l;
}
#endif
struct Stream
{
    SimBuf b, rb;
    IStream s{&b}, r{&rb};
};

enum Ex { kNone, kBadAlloc, kLength, kRange, kLogic, kOther };
const char* exname(Ex e) {
    static const char* n[] = {"no exception", "bad_alloc", "length_error", "out_of_range", "logic_error", "another exception"};
    return n[e];
}

class StringWorld : public World
{
    struct State
    {
        std::map<M, std::size_t> hashes;
        void* mem[kSlots] = {};
        S* s[kSlots] = {};
        M m[kSlots];
        int given[kSlots] = {};
        sm::Arena* arena[kArenas] = {};
        std::unique_ptr<Stream> st[kStreams];
        const Trace* t = nullptr;
        bool faults = true;      // false: control execution
        bool armed = false;
        i64 fk = 0, fl = 0;
        bool outage = false;
        bool vast = false;       // large strings are welcome in this run
        std::size_t step = 0;
        u64 nfired = 0;
        bool shared_mutated = false, crossed = false;
        std::vector<char>* threw = nullptr;  // steps whose operation failed for lack of memory
    };
    State* S_ = nullptr;

    // ------------------------------------------------------------ helpers
    [[noreturn]] void bad(const std::string& kind, const std::string& msg, bool oom = false) { throw Mismatch{kind, msg, oom}; }
    template <class C>
    static std::string show(const std::basic_string<C>& m) {
        std::string r = "\"";
        for (std::size_t i = 0; i < m.size() && i < 60; ++i) {
            unsigned c = unsigned(std::make_unsigned_t<C>(m[i]));
            if (c >= 32 && c < 127)
                r += char(c);
            else {
                char b[16];
                snprintf(b, sizeof b, "\\x%02x", c);
                r += b;
            }
        }
        return r + (m.size() > 60 ? "..." : "") + "\"(" + std::to_string(m.size()) + ")";
    }
    static M content(u64 seed, std::size_t n, bool nul = true) {
        M m;
        m.reserve(n + 32);  // release builds may read the rest of the last word
        m.resize(n, E('a'));
        Rng r(seed);
        int kind = int(r.below(4));
        for (auto& c : m) {
            u64 x = r.next();
            c = E('a' + x % 26);
            if (kind == 1) c = sizeof(E) == 1 || x % 3 ? E(1 + x % 255) : E(1 + x % 65000);
            if (kind == 2 && nul && x % 11 == 0) c = 0;
            if (kind == 3) c = E('a' + (x % 3));
        }
        if (!nul)
            for (auto& c : m)
                if (c == 0) c = E('z');
        return m;
    }
    static std::size_t len(i64 v) { return v >= kVast ? std::size_t(v - kVast) % (1 << 18) : std::size_t(u64(v) % 4096); }
    std::size_t max_len() const { return S_->vast ? 600000 : 9000; }

    // fault plan around one operation of the code under test
    void arm() {
        if (!S_->faults) return;
        if (kArena && !on_heap) {
            if (S_->outage)
                blk::outage(true);
            else if (S_->armed)
                blk::plan(S_->fk, S_->fl);
        } else {
            if (S_->outage)
                heap::plan_cap(0);
            else if (S_->armed)
                heap::plan(S_->fk, S_->fl);
        }
    }
    u64 f0 = 0;
    bool on_heap = false;  // the operation takes its memory from the heap, of arena strings too
    u64 fired_now() { return kArena && !on_heap ? blk::failures() - f0 : heap::fired(); }
    bool arm_op() {
        f0 = kArena ? blk::failures() : 0;
        if (!S_->faults) return false;
        bool on = S_->armed || S_->outage;
        if (on) arm();
        return on;
    }
    u64 disarm_op() {
        u64 n = fired_now();
        if (kArena && !on_heap)
            blk::heal();
        else
            heap::clear_plan();
        S_->armed = false;
        if (n && S_->faults) {
            S_->nfired += n;
            count(kArena && !on_heap ? "fault.block_alloc_failed" : "fault.alloc_failed", n);
            ::interesting();
        }
        return n;
    }
    bool skipped() const { return !S_->faults && S_->threw && S_->threw->at(S_->step); }

    sm::Arena* arena_of(std::pmr::memory_resource* r) {
        for (auto* a : S_->arena)
            if (a && a->get_memory_resource() == r) return a;
        return nullptr;
    }
    Alloc alloc_for(int a) {
#ifdef SIM_ARENA_STRING
        return Alloc(S_->arena[a]->get_memory_resource());
#else
        (void)a;
        return Alloc();
#endif
    }
    template <class X>
    static std::pmr::memory_resource* resource_of(const X& s) {
        if constexpr (requires { s.get_allocator().resource(); })
            return s.get_allocator().resource();
        else
            return nullptr;
    }
    bool same_buffer(int a, int b) {
        return a != b && S_->s[a] && S_->s[b] && static_cast<const S*>(S_->s[a])->data() == static_cast<const S*>(S_->s[b])->data();
    }
    bool shared(int a) {
        for (int b = 0; b < kSlots; ++b)
            if (same_buffer(a, b)) return true;
        return false;
    }

    // one string against its model
    void verify(const S& s, const M& m, const char* what, bool oom) {
        const char* k = oom ? "changed" : "value";
        std::size_t sz, cap;
        const E* d;
        const E* z;
        {
            CUT c;
            sz = s.size();
            cap = s.capacity();
            d = s.data();
            z = s.c_str();
        }
        auto kind = [&](const char* x) { return std::string(x); };
        if (sz != m.size() || (sz && std::memcmp(d, m.data(), sz * sizeof(E)) != 0)) {
            M got = sz < 1000000 ? M(d, sz) : M();
            bad(kind(k), std::string(what) + ": the string holds " + show(got) + " size " + std::to_string(sz) + ", expected " + show(m), oom);
        }
        if (z != d || d[sz] != 0) bad("terminator", std::string(what) + ": no terminator after " + show(m), oom);
        if (cap < sz) bad("capacity", std::string(what) + ": capacity " + std::to_string(cap) + " < size " + std::to_string(sz), oom);
        // the storage the string says it has is really there
        bool inside = reinterpret_cast<const char*>(d) >= reinterpret_cast<const char*>(&s) &&
                      reinterpret_cast<const char*>(d) < reinterpret_cast<const char*>(&s + 1);
        if constexpr (kArena) {
            std::pmr::memory_resource* r;
            {
                CUT c;
                r = resource_of(s);
            }
            auto* a = arena_of(r);
            if (!a) bad("allocator", std::string(what) + ": the allocator of the string belongs to no live arena", oom);
            if (!inside) {
                sm::ArenaContainStatus st, st2;
                {
                    CUT c;
                    st = a->check(reinterpret_cast<const char*>(d));
                    st2 = a->check(reinterpret_cast<const char*>(d + sz));
                }
                if (st != sm::ArenaContainStatus::BlockUsed || st2 != sm::ArenaContainStatus::BlockUsed)
                    bad("storage", std::string(what) + ": the content is not in the arena of the string", oom);
            }
        }
        (void)inside;
    }
    void verify_all(const char* what, int target, bool oom) {
        for (int i = 0; i < kSlots; ++i)
            if (S_->s[i]) {
                if (i == target)
                    verify(*S_->s[i], S_->m[i], what, oom);
                else
                    verify(*S_->s[i], S_->m[i], (std::string("another string after ") + what).c_str(), oom);
            }
        if (!kArena) {
            u64 n = 0;
            for (int i = 0; i < kSlots; ++i) n += S_->s[i] != nullptr;
            if (heap::live_count() > n && !heap::suspect_leak())
                bad("leak", std::string(what) + ": " + std::to_string(n) + " string(s) but " + std::to_string(heap::live_count()) +
                              " buffers are allocated", oom);
        }
    }
    template <class F>
    Ex guarded(F f) {
        try {
            CUT c;
            f();
            return kNone;
        } catch (const std::bad_alloc&) {
            return kBadAlloc;
        } catch (const std::length_error&) {
            return kLength;
        } catch (const std::out_of_range&) {
            return kRange;
        } catch (const std::logic_error&) {
            return kLogic;
        }
    }
    // runs an operation of the code under test under the pending fault; true when it completed
    template <class F>
    bool perform(const char* what, int target, Ex expect, F f) {
        for (int attempt = 0;; ++attempt) {
            if (attempt == 0 && skipped()) continue;  // control execution: only the retry
            bool on = attempt == 0 && arm_op();
            if (!on) f0 = kArena ? blk::failures() : 0;
            Ex e = guarded(f);
            g_cut = 0;
            u64 n = on ? disarm_op() : 0;
            ev(u64(e) * 64 + n);
            if (e == kBadAlloc) {
                if (n == 0 && expect != kBadAlloc) bad("spurious-bad-alloc", std::string(what) + " threw bad_alloc although no allocation failed");
                count("op.threw_bad_alloc");
                if (S_->threw) S_->threw->at(S_->step) = 1;
                verify_all((std::string(what) + " (failed)").c_str(), target, true);
                if (expect == kBadAlloc) return false;
                if (attempt == 0) continue;  // faults stopped: the same operation must work now
                return false;
            }
            if (expect == kBadAlloc) {  // an impossible size: bad_alloc or length_error
                if (e != kLength) bad("impossible", std::string(what) + " of an impossible size ended with " + exname(e), true);
                verify_all((std::string(what) + " (failed)").c_str(), target, true);
                return false;
            }
            if (e != expect) bad("exception", std::string(what) + " ended with " + exname(e) + ", std::string with " + exname(expect));
            if (e != kNone) {
                verify_all(what, target, false);
                return false;
            }
            return true;
        }
    }
    template <class F>
    static Ex model(M& m, i64& r, F f) {
        M n = m;
        try {
            r = f(n);
        } catch (const std::length_error&) {
            return kLength;
        } catch (const std::out_of_range&) {
            return kRange;
        }
        m = std::move(n);
        return kNone;
    }
    template <class FS, class FM>
    bool apply(int t, const char* what, FS fs, FM fm) {
        i64 rs = -1, rm = -1;
        if (shared(t)) S_->shared_mutated = true;
        M nm = S_->m[t];
        Ex em = model(nm, rm, fm);
        bool ok = perform(what, t, em, [&] { rs = fs(*S_->s[t]); });
        if (ok) {
            S_->m[t] = nm;
            if (rs != rm) bad("result", std::string(what) + " returned " + std::to_string(rs) + ", expected " + std::to_string(rm));
        }
        verify_all(what, t, false);
        return ok;
    }
    void moved_from(int b) {  // valid but unspecified
        std::size_t n;
        const E* d;
        {
            CUT c;
            n = S_->s[b]->size();
            d = static_cast<const S*>(S_->s[b])->data();
        }
        if (n > 1000000) bad("moved-from", "a moved-from string has size " + std::to_string(n));
        S_->m[b] = M(d, n);
    }
    void destroy(int t) {
        if (!S_->s[t]) return;
        {
            CUT c;
            S_->s[t]->~S();
        }
        ::free(S_->mem[t]);
        S_->mem[t] = nullptr;
        S_->s[t] = nullptr;
        S_->m[t].clear();
    }
    // builds a new string with f(memory) and puts it into slot t (replacing what is there)
    template <class F>
    bool make(int t, const char* what, Ex expect, const M& m, F f) {
        void* p = ::malloc(sizeof(S));
        bool ok = perform(what, t, expect, [&] { f(p); });
        if (!ok) {
            ::free(p);
            return false;
        }
        M keep = m;  // m may live in the slot
        destroy(t);
        S_->mem[t] = p;
        S_->s[t] = static_cast<S*>(p);
        S_->m[t] = keep;
        return true;
    }
    template <class... A>
    static S* raw(void* p, const Alloc& al, A&&... a) {
        if constexpr (kArena) {
            return new (p) S(std::forward<A>(a)..., al);
        } else {
            (void)al;
            return new (p) S(std::forward<A>(a)...);
        }
    }

    // ------------------------------------------------------------ operations
    void op_new(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots);
        int v = int(u64(o.a[1]) % 14);
        std::size_t n = len(o.a[2]);
        u64 sd = u64(o.a[3]);
        int src = int(u64(o.a[4]) % kSlots);
        int ar = int(sd % kArenas);
        Alloc al = alloc_for(ar);
        bool ok = false;
        const char* what = "construction";
        switch (v) {
            case 0: ok = make(t, what, kNone, M(), [&](void* p) { raw(p, al); }); break;
            case 1: {
                M c = content(sd, n, false);
                Buf b(c, unsigned(sd), true);
                ok = make(t, what, kNone, c, [&](void* p) { raw(p, al, static_cast<const E*>(b.p)); });
                break;
            }
            case 2: {
                M c = content(sd, n);
                Buf b(c, unsigned(sd), false);
                ok = make(t, what, kNone, c, [&](void* p) { raw(p, al, static_cast<const E*>(b.p), n); });
                break;
            }
            case 3: ok = make(t, what, kNone, M(n, E('a' + sd % 26)), [&](void* p) { raw(p, al, n, E('a' + sd % 26)); }); break;
            case 4: {
                M c = content(sd, n);
                Buf b(c, unsigned(sd), false);
                ok = make(t, what, kNone, c, [&](void* p) { raw(p, al, static_cast<const E*>(b.p), static_cast<const E*>(b.p) + n); });
                break;
            }
            case 5: {
                M c = content(sd, n);
                Buf b(c, unsigned(sd), false);
                ok = make(t, what, kNone, c, [&](void* p) { raw(p, al, std::basic_string_view<E>(b.p, n)); });
                break;
            }
            case 6: ok = make(t, what, kNone, M{E('x'), E('y'), E('z')}, [&](void* p) { raw(p, al, std::initializer_list<E>{'x', 'y', 'z'}); }); break;
            case 7: {
                M c = content(sd, n);
                std::list<E> l(c.begin(), c.end());
                ok = make(t, what, kNone, c, [&](void* p) { raw(p, al, l.begin(), l.end()); });
                break;
            }
            case 8: {
                M c = content(sd, n);
                ok = make(t, what, kNone, c, [&](void* p) { raw(p, al, InIt{&c, 0}, InIt{&c, n}); });
                break;
            }
            case 9:
                if constexpr (!kArena) {
                    M c = content(sd, n);
                    ok = make(t, what, kNone, c, [&](void* p) { new (p) S(c); });
                }
                break;
            case 10:
                if (S_->s[src]) {
                    S& x = *S_->s[src];
                    ok = make(t, "copy construction", kNone, S_->m[src], [&](void* p) { new (p) S(static_cast<const S&>(x)); });
                    count("op.copy");
                }
                break;
            case 11:
                if (S_->s[src] && src != t) {
                    S& x = *S_->s[src];
                    ok = make(t, "move construction", kNone, S_->m[src], [&](void* p) { new (p) S(std::move(x)); });
                    if (ok) moved_from(src);
                }
                break;
            case 12:
                if (S_->s[src]) {
                    S& x = *S_->s[src];
                    std::size_t pos = sd % (S_->m[src].size() + 1);
                    if (sd % 29 == 0) pos = S_->m[src].size() + 1 + n;
                    M c;
                    Ex e = kNone;
                    try {
                        c = M(S_->m[src], pos, n);
                    } catch (const std::out_of_range&) {
                        e = kRange;
                    }
                    ok = make(t, "construction from a part", e, c, [&](void* p) { raw(p, al, static_cast<const S&>(x), pos, n); });
                }
                break;
            default:
                if (S_->s[src]) {
                    S& x = *S_->s[src];
                    ok = make(t, "clone", kNone, S_->m[src], [&](void* p) { new (p) S(x.clone()); });
                    count("op.clone");
                    if (ok && src != t && n && same_buffer(src, t)) bad("clone-shares", "a clone shares its buffer with the original");
                }
                break;
        }
        if (kArena && ok && v < 10) {
            std::pmr::memory_resource* r = nullptr;
            r = resource_of(*S_->s[t]);
            if (r != S_->arena[ar]->get_memory_resource()) bad("allocator", "the new string does not use the allocator it was given");
        }
        verify_all(what, t, false);
    }

    // a part of a string, backwards
    static auto reversed(const S& s, std::size_t from, std::size_t n) {
        auto b = s.rbegin() + long(from);
        return std::pair(b, b + long(n));
    }
    void op_assign(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 20), b = int(u64(o.a[4]) % kSlots);
        std::size_t n = len(o.a[2]);
        u64 sd = u64(o.a[3]);
        if (!S_->s[t]) return;
        S& x = *S_->s[b];
        M mb = S_->s[b] ? S_->m[b] : M();
        if ((v == 0 || v == 1 || v == 6 || v == 7 || v == 8) && !S_->s[b]) return;
        M c = content(sd, n, v != 2 && v != 10);
        Buf buf(c, unsigned(sd), v == 2 || v == 10);
        const E* q = buf.p;
        const char* w = "assign";
        std::size_t sp = S_->m[t].empty() ? 0 : sd % S_->m[t].size(), sn = std::min(n, S_->m[t].size() - sp);
        switch (v) {
            case 0: apply(t, "operator=(const&)", [&](S& s) { s = static_cast<const S&>(x); return 0; }, [&](M& m) { m = mb; return 0; }); break;
            case 1:
            case 7: {
                if (b == t) {
                    apply(t, "self move assignment", [&](S& s) { s = std::move(x); return 0; }, [&](M&) { return 0; });
                    break;
                }
                if (shared(t)) S_->shared_mutated = true;
                bool ok = perform("operator=(&&)", t, kNone, [&] {
                    if (v == 1)
                        *S_->s[t] = std::move(x);
                    else
                        S_->s[t]->assign(std::move(x));
                });
                if (ok) S_->m[t] = mb, moved_from(b);
                verify_all("operator=(&&)", t, false);
                break;
            }
            case 2: apply(t, w, [&](S& s) { s = q; return 0; }, [&](M& m) { m = c; return 0; }); break;
            case 3: apply(t, w, [&](S& s) { s = SV(q, n); return 0; }, [&](M& m) { m = c; return 0; }); break;
            case 4: apply(t, w, [&](S& s) { s = E('k'); return 0; }, [&](M& m) { m = E('k'); return 0; }); break;
            case 5: apply(t, w, [&](S& s) { s = {'p', 'q'}; return 0; }, [&](M& m) { m = {'p', 'q'}; return 0; }); break;
            case 6: apply(t, w, [&](S& s) { s.assign(static_cast<const S&>(x)); return 0; }, [&](M& m) { m = mb; return 0; }); break;
            case 8: {
                std::size_t pos = sd % (mb.size() + 1);
                if (sd % 31 == 0) pos = mb.size() + 1;
                apply(t, "assign of a part", [&](S& s) { s.assign(static_cast<const S&>(x), pos, n); return 0; },
                      [&](M& m) { m = M(mb, pos, n); return 0; });
                break;
            }
            case 9: apply(t, w, [&](S& s) { s.assign(q, n); return 0; }, [&](M& m) { m = c; return 0; }); break;
            case 10: apply(t, w, [&](S& s) { s.assign(q); return 0; }, [&](M& m) { m = c; return 0; }); break;
            case 11: apply(t, w, [&](S& s) { s.assign({'r', 's', 't'}); return 0; }, [&](M& m) { m = {'r', 's', 't'}; return 0; }); break;
            case 12: apply(t, w, [&](S& s) { s.assign(n, E('u')); return 0; }, [&](M& m) { m.assign(n, E('u')); return 0; }); break;
            case 13: {
                std::list<E> l(c.begin(), c.end());
                apply(t, w, [&](S& s) { s.assign(l.begin(), l.end()); return 0; }, [&](M& m) { m = c; return 0; });
                break;
            }
            case 14: apply(t, w, [&](S& s) { s.assign(InIt{&c, 0}, InIt{&c, n}); return 0; }, [&](M& m) { m = c; return 0; }); break;
            case 15:
                if constexpr (!kArena) apply(t, w, [&](S& s) { s = c; return 0; }, [&](M& m) { m = c; return 0; });
                break;
            case 19:
                apply(t, "assign of its own reverse", [&](S& s) { auto r = reversed(s, sp, sn); s.assign(r.first, r.second); return 0; },
                      [&](M& m) { m = M(m.rbegin() + long(sp), m.rbegin() + long(sp + sn)); return 0; });
                break;
            case 16:
                apply(t, "assign of a part of itself", [&](S& s) { s.assign(static_cast<const S&>(s).data() + sp, sn); return 0; },
                      [&](M& m) { m = M(m, sp, sn); return 0; });
                break;
            case 17:
                apply(t, "assign of a part of itself", [&](S& s) { s.assign(static_cast<const S&>(s), sp, sn); return 0; },
                      [&](M& m) { m = M(m, sp, sn); return 0; });
                break;
            default:
                apply(t, "self assignment", [&](S& s) { s = static_cast<const S&>(*S_->s[t]); return 0; }, [&](M&) { return 0; });
                break;
        }
    }

    void op_append(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 19), b = int(u64(o.a[4]) % kSlots);
        std::size_t n = len(o.a[2]);
        u64 sd = u64(o.a[3]);
        if (!S_->s[t]) return;
        if ((v == 0 || v == 5 || v == 6) && !S_->s[b]) return;
        S* x = S_->s[b];
        M mb = x ? S_->m[b] : M();
        if (mb.size() + S_->m[t].size() > max_len()) return;
        M c = content(sd, n, v != 2 && v != 8);
        Buf buf(c, unsigned(sd), v == 2 || v == 8);
        const E* q = buf.p;
        std::size_t sp = S_->m[t].empty() ? 0 : sd % S_->m[t].size(), sn = std::min(n, S_->m[t].size() - sp);
        const char* w = "append";
        auto add = [&](M& m) { m += c; return i64(0); };
        switch (v) {
            case 0: apply(t, w, [&](S& s) { s += static_cast<const S&>(*x); return 0; }, [&](M& m) { m += mb; return 0; }); break;
            case 1: apply(t, w, [&](S& s) { s += std::basic_string_view<E>(q, n); return 0; }, add); break;
            case 2: apply(t, w, [&](S& s) { s += q; return 0; }, add); break;
            case 3: apply(t, w, [&](S& s) { s += E('v'); return 0; }, [&](M& m) { m += E('v'); return 0; }); break;
            case 4: apply(t, w, [&](S& s) { s += {'1', '2'}; return 0; }, [&](M& m) { m += {'1', '2'}; return 0; }); break;
            case 5: apply(t, w, [&](S& s) { s.append(static_cast<const S&>(*x)); return 0; }, [&](M& m) { m += mb; return 0; }); break;
            case 6: {
                std::size_t pos = sd % (mb.size() + 1);
                if (sd % 31 == 0) pos = mb.size() + 1;
                apply(t, "append of a part", [&](S& s) { s.append(static_cast<const S&>(*x), pos, n); return 0; },
                      [&](M& m) { m += M(mb, pos, n); return 0; });
                break;
            }
            case 7: apply(t, w, [&](S& s) { s.append(q, n); return 0; }, add); break;
            case 8: apply(t, w, [&](S& s) { s.append(q); return 0; }, add); break;
            case 9: apply(t, w, [&](S& s) { s.append(n, E('w')); return 0; }, [&](M& m) { m.append(n, E('w')); return 0; }); break;
            case 10: {
                std::list<E> l(c.begin(), c.end());
                apply(t, w, [&](S& s) { s.append(l.begin(), l.end()); return 0; }, add);
                break;
            }
            case 11: apply(t, w, [&](S& s) { s.append(InIt{&c, 0}, InIt{&c, n}); return 0; }, add); break;
            case 12: apply(t, w, [&](S& s) { s.append({'3', '4', '5'}); return 0; }, [&](M& m) { m += lit("345"); return 0; }); break;
            case 13: apply(t, "append of itself", [&](S& s) { s.append(static_cast<const S&>(s)); return 0; }, [&](M& m) { m += M(m); return 0; }); break;
            case 14:
                apply(t, "append of a part of itself", [&](S& s) { s.append(static_cast<const S&>(s).data() + sp, sn); return 0; },
                      [&](M& m) { m += M(m, sp, sn); return 0; });
                break;
            case 15:
                apply(t, "append of a part of itself",
                      [&](S& s) { const S& k = s; s.append(k.begin() + sp, k.begin() + sp + sn); return 0; },
                      [&](M& m) { m += M(m, sp, sn); return 0; });
                break;
            case 18:
                apply(t, "append of its own reverse", [&](S& s) { auto r = reversed(s, sp, sn); s.append(r.first, r.second); return 0; },
                      [&](M& m) { m += M(m.rbegin() + long(sp), m.rbegin() + long(sp + sn)); return 0; });
                break;
            default: apply(t, "push_back", [&](S& s) { s.push_back(E('a' + sd % 26)); return 0; }, [&](M& m) { m.push_back(E('a' + sd % 26)); return 0; }); break;
        }
    }

    void op_insert(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 15), b = int(u64(o.a[4]) % kSlots);
        std::size_t n = len(o.a[2]);
        u64 sd = u64(o.a[3]);
        if (!S_->s[t]) return;
        if ((v == 0 || v == 1) && !S_->s[b]) return;
        S* x = S_->s[b];
        M mb = x ? S_->m[b] : M();
        if (mb.size() + S_->m[t].size() > max_len()) return;
        M c = content(sd, n, v != 3);
        Buf buf(c, unsigned(sd), v == 3);
        const E* q = buf.p;
        std::size_t pos = mix64(sd) % (S_->m[t].size() + 1);
        if (sd % 9 == 0) pos = S_->m[t].size();
        if (sd % 9 == 1) pos = 0;
        if (sd % 61 == 2 && (v <= 4 || v == 10)) pos = S_->m[t].size() + 1;  // out of range
        std::size_t sp = S_->m[t].empty() ? 0 : sd % S_->m[t].size(), sn = std::min(n, S_->m[t].size() - sp);
        const char* w = "insert";
        auto add = [&](M& m) { m.insert(pos, c); return i64(0); };
        auto addi = [&](M& m) { m.insert(pos, c); return i64(pos); };
        auto it = [&](const S& s) { return s.cbegin() + pos; };
        switch (v) {
            case 0: apply(t, w, [&](S& s) { s.insert(pos, static_cast<const S&>(*x)); return 0; }, [&](M& m) { m.insert(pos, mb); return 0; }); break;
            case 1: {
                std::size_t p2 = sd % (mb.size() + 1);
                apply(t, w, [&](S& s) { s.insert(pos, static_cast<const S&>(*x), p2, n); return 0; },
                      [&](M& m) { M part(mb, p2, n); m.insert(pos, part); return 0; });
                break;
            }
            case 2: apply(t, w, [&](S& s) { s.insert(pos, q, n); return 0; }, add); break;
            case 3: apply(t, w, [&](S& s) { s.insert(pos, q); return 0; }, add); break;
            case 4: apply(t, w, [&](S& s) { s.insert(pos, n, E('i')); return 0; }, [&](M& m) { m.insert(pos, n, E('i')); return 0; }); break;
            case 5: apply(t, w, [&](S& s) { auto r = s.insert(it(s), E('j')); return i64(r - it(s)) + i64(pos); }, [&](M& m) { m.insert(pos, 1, E('j')); return i64(pos); }); break;
            case 6: apply(t, w, [&](S& s) { auto r = s.insert(it(s), n, E('l')); return i64(r - s.cbegin()); }, [&](M& m) { m.insert(pos, n, E('l')); return i64(pos); }); break;
            case 7: {
                std::list<E> l(c.begin(), c.end());
                apply(t, w, [&](S& s) { auto r = s.insert(it(s), l.begin(), l.end()); return i64(r - s.cbegin()); }, addi);
                break;
            }
            case 8: apply(t, w, [&](S& s) { auto r = s.insert(it(s), InIt{&c, 0}, InIt{&c, n}); return i64(r - s.cbegin()); }, addi); break;
            case 9:
                apply(t, w, [&](S& s) { auto r = s.insert(it(s), {'6', '7'}); return i64(r - s.cbegin()); },
                      [&](M& m) { m.insert(pos, lit("67")); return i64(pos); });
                break;
            case 10: apply(t, "insert of itself", [&](S& s) { s.insert(pos, static_cast<const S&>(s)); return 0; }, [&](M& m) { m.insert(pos, M(m)); return 0; }); break;
            case 11:
                apply(t, "insert of a part of itself", [&](S& s) { s.insert(pos, static_cast<const S&>(s).data() + sp, sn); return 0; },
                      [&](M& m) { M part(m, sp, sn); m.insert(pos, part); return 0; });
                break;
            case 12:
                apply(t, "insert of a part of itself",
                      [&](S& s) { const S& k = s; auto r = s.insert(it(s), k.begin() + sp, k.begin() + sp + sn); return i64(r - s.cbegin()); },
                      [&](M& m) { M part(m, sp, sn); m.insert(pos, part); return i64(pos); });
                break;
            case 14:
                apply(t, "insert of its own reverse",
                      [&](S& s) { auto r = reversed(s, sp, sn); auto i = s.insert(it(s), r.first, r.second); return i64(i - s.cbegin()); },
                      [&](M& m) { m.insert(pos, M(m.rbegin() + long(sp), m.rbegin() + long(sp + sn))); return i64(pos); });
                break;
            default: apply(t, w, [&](S& s) { s.insert(it(s), q, q + n); return 0; }, add); break;
        }
    }

    void op_erase(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 6);
        std::size_t n = len(o.a[2]);
        u64 sd = u64(o.a[3]);
        if (!S_->s[t]) return;
        std::size_t sz = S_->m[t].size();
        std::size_t pos = mix64(sd) % (sz + 1);
        std::size_t k = std::min(n, sz - pos);
        const char* w = "erase";
        switch (v) {
            case 0:
                if (sd % 61 == 2) pos = sz + 1;
                apply(t, w, [&](S& s) { s.erase(pos, n); return 0; }, [&](M& m) { m.erase(pos, n); return 0; });
                break;
            case 1:
                if (sz == 0) return;
                pos = mix64(sd) % sz;
                apply(t, w, [&](S& s) { auto i = s.begin() + pos; auto r = s.erase(i); return i64(r - s.begin()); }, [&](M& m) { m.erase(pos, 1); return i64(pos); });
                break;
            case 2:
                apply(t, w, [&](S& s) { auto i = s.begin() + pos; auto r = s.erase(i, i + k); return i64(r - s.begin()); }, [&](M& m) { m.erase(pos, k); return i64(pos); });
                break;
            case 3:
                if (sz == 0) return;
                apply(t, "pop_back", [&](S& s) { s.pop_back(); return 0; }, [&](M& m) { m.pop_back(); return 0; });
                break;
            case 4: apply(t, "clear", [&](S& s) { s.clear(); return 0; }, [&](M& m) { m.clear(); return 0; }); break;
            default: apply(t, w, [&](S& s) { s.erase(pos); return 0; }, [&](M& m) { m.erase(pos); return 0; }); break;
        }
    }

    void op_replace(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 16), b = int(u64(o.a[4]) % kSlots);
        std::size_t n = len(o.a[2]);
        u64 sd = u64(o.a[3]);
        if (!S_->s[t]) return;
        if ((v == 0 || v == 1 || v == 5) && !S_->s[b]) return;
        S* x = S_->s[b];
        M mb = x ? S_->m[b] : M();
        std::size_t sz = S_->m[t].size();
        if (mb.size() + sz > max_len()) return;
        M c = content(sd, n, v != 2 && v != 6);
        Buf buf(c, unsigned(sd), v == 2 || v == 6);
        const E* q = buf.p;
        std::size_t pos = mix64(sd) % (sz + 1);
        if (sd % 9 == 0) pos = 0;
        std::size_t n1 = mix64(sd + 1) % (sz - pos + 1);
        if (sd % 7 == 0) n1 = sz - pos;
        if (sd % 7 == 1) n1 = std::min(n, sz - pos);
        std::size_t bp = pos;
        if (sd % 61 == 2 && (v <= 4 || v == 11 || v == 12)) bp = sz + 1;
        std::size_t sp = sz == 0 ? 0 : sd % sz, sn = std::min(n, sz - sp);
        const char* w = "replace";
        auto mod = [&](M& m) { m.replace(bp, n1, c); return i64(0); };
        switch (v) {
            case 0: apply(t, w, [&](S& s) { s.replace(bp, n1, static_cast<const S&>(*x)); return 0; }, [&](M& m) { m.replace(bp, n1, mb); return 0; }); break;
            case 1: {
                std::size_t p2 = sd % (mb.size() + 1);
                apply(t, w, [&](S& s) { s.replace(bp, n1, static_cast<const S&>(*x), p2, n); return 0; },
                      [&](M& m) { M part(mb, p2, n); m.replace(bp, n1, part); return 0; });
                break;
            }
            case 2: apply(t, w, [&](S& s) { s.replace(bp, n1, q); return 0; }, mod); break;
            case 3: apply(t, w, [&](S& s) { s.replace(bp, n1, q, n); return 0; }, mod); break;
            case 4: apply(t, w, [&](S& s) { s.replace(bp, n1, n, E('m')); return 0; }, [&](M& m) { m.replace(bp, n1, n, E('m')); return 0; }); break;
            case 5: apply(t, w, [&](S& s) { auto i = s.begin() + pos; s.replace(i, i + n1, static_cast<const S&>(*x)); return 0; }, [&](M& m) { m.replace(pos, n1, mb); return 0; }); break;
            case 6: apply(t, w, [&](S& s) { auto i = s.begin() + pos; s.replace(i, i + n1, q); return 0; }, mod); break;
            case 7: apply(t, w, [&](S& s) { auto i = s.begin() + pos; s.replace(i, i + n1, q, n); return 0; }, mod); break;
            case 8: apply(t, w, [&](S& s) { auto i = s.begin() + pos; s.replace(i, i + n1, n, E('n')); return 0; }, [&](M& m) { m.replace(pos, n1, n, E('n')); return 0; }); break;
            case 9: {
                std::list<E> l(c.begin(), c.end());
                apply(t, w, [&](S& s) { auto i = s.begin() + pos; s.replace(i, i + n1, l.begin(), l.end()); return 0; }, mod);
                break;
            }
            case 10: apply(t, w, [&](S& s) { auto i = s.begin() + pos; s.replace(i, i + n1, InIt{&c, 0}, InIt{&c, n}); return 0; }, mod); break;
            case 11: apply(t, "replace by itself", [&](S& s) { s.replace(bp, n1, static_cast<const S&>(s)); return 0; }, [&](M& m) { m.replace(bp, n1, M(m)); return 0; }); break;
            case 12:
                apply(t, "replace by a part of itself", [&](S& s) { s.replace(bp, n1, static_cast<const S&>(s).data() + sp, sn); return 0; },
                      [&](M& m) { M part(m, sp, sn); m.replace(bp, n1, part); return 0; });
                break;
            case 13:
                apply(t, "replace by a part of itself",
                      [&](S& s) { auto i = s.begin() + pos; const S& k = s; s.replace(i, i + n1, k.begin() + sp, k.begin() + sp + sn); return 0; },
                      [&](M& m) { M part(m, sp, sn); m.replace(pos, n1, part); return 0; });
                break;
            case 15:
                apply(t, "replace by its own reverse",
                      [&](S& s) { auto i = s.begin() + pos; auto r = reversed(s, sp, sn); s.replace(i, i + n1, r.first, r.second); return 0; },
                      [&](M& m) { m.replace(pos, n1, M(m.rbegin() + long(sp), m.rbegin() + long(sp + sn))); return 0; });
                break;
            default: apply(t, w, [&](S& s) { auto i = s.begin() + pos; s.replace(i, i + n1, q, q + n); return 0; }, mod); break;
        }
    }

    void op_mutate(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots);
        int v = int(u64(o.a[1]) % 16);
        u64 sd = u64(o.a[2]);
        if (!S_->s[t]) return;
        std::size_t sz = S_->m[t].size();
        if (v == 1 && sd % 17 == 0) {
            apply(t, "at out of range", [&](S& s) { s.at(sz + sd % 3) = 'q'; return 0; }, [&](M& m) { m.at(sz + sd % 3) = 'q'; return 0; });
            return;
        }
        if (sz == 0) return;
        std::size_t i = sd % sz;
        E c = E('A' + mix64(sd) % 26);
        auto mod = [&](M& m) { m[i] = c; return i64(0); };
        const char* w = "element write";
        switch (v) {
            case 0: apply(t, w, [&](S& s) { s[i] = c; return 0; }, mod); break;
            case 1: apply(t, w, [&](S& s) { s.at(i) = c; return 0; }, mod); break;
            case 2: apply(t, w, [&](S& s) { s.front() = c; return 0; }, [&](M& m) { m.front() = c; return 0; }); break;
            case 3: apply(t, w, [&](S& s) { s.back() = c; return 0; }, [&](M& m) { m.back() = c; return 0; }); break;
            case 4: apply(t, "write through begin()", [&](S& s) { *(s.begin() + i) = c; return 0; }, mod); break;
            case 5:
                apply(t, "write through iterators", [&](S& s) { for (auto& e : s) e = E(e ^ 1); return 0; }, [&](M& m) { for (auto& e : m) e = E(e ^ 1); return 0; });
                break;
            case 6: apply(t, "write through rbegin()", [&](S& s) { *(s.rbegin() + i) = c; return 0; }, [&](M& m) { *(m.rbegin() + i) = c; return 0; }); break;
            case 7: apply(t, "write through end()", [&](S& s) { *(s.end() - 1 - i) = c; return 0; }, [&](M& m) { m[m.size() - 1 - i] = c; return 0; }); break;
            case 8:
                if (!shared(t)) apply(t, "write through data()", [&](S& s) { s.data()[i] = c; return 0; }, mod);
                break;
            case 14:  // (recorded finding, never generated) data() of a shared string
                apply(t, "write through data()", [&](S& s) { s.data()[i] = c; return 0; }, mod);
                break;
            case 15: {  // (recorded finding, never generated) a reference taken before the string was copied
                S* copy = nullptr;
                void* p = ::malloc(sizeof(S));
                M keep = S_->m[t], got;
                {
                    CUT k;
                    E& r = (*S_->s[t])[i];
                    copy = new (p) S(*S_->s[t]);
                    r = c;
                }
                got = M(static_cast<const S*>(copy)->data(), copy->size());
                S_->m[t][i] = c;
                if (got != keep) bad("stale-reference", "a write through a reference changed a copy taken after the reference");
                {
                    CUT k;
                    copy->~S();
                }
                ::free(p);
                break;
            }
            default: apply(t, w, [&](S& s) { s[i] = c; return 0; }, mod); break;
        }
    }

    void op_read(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots);
        if (!S_->s[t]) return;
        u64 sd = u64(o.a[1]);
        const S& s = *S_->s[t];
        const M& m = S_->m[t];
        std::size_t pos = sd % (m.size() + 1), n = sd / 7 % 400;
        M out(n + 1, E('#'));
        std::size_t k = 0;
        bool okc = true;
        {
            CUT c;
            k = s.copy(out.data(), n, pos);
            okc = s.length() == m.size() && s.empty() == m.empty() && std::size_t(s.end() - s.begin()) == m.size() &&
                  std::size_t(s.rend() - s.rbegin()) == m.size() && s.max_size() >= m.size();
            if (!m.empty()) okc = okc && s.front() == m.front() && s.back() == m.back() && s.at(pos % m.size()) == m[pos % m.size()] && s[pos % m.size()] == m[pos % m.size()];
        }
        if (k != std::min(n, m.size() - pos) || M(out, 0, k) != M(m, pos, n) || out[k] != '#' || !okc)
            bad("read", "reading " + show(m) + " gives something else");
        M ts;
        {
            CUT c;
            Harness h;
#ifdef SIM_ARENA_STRING
            ts = M(SV(s));
#else
#ifdef SIM_NARROW
            ts = (sd & 1) ? s.toStdString() : std::to_string(s);
#else
            ts = s.toStdString();
#endif
#endif
        }
        if (ts != m) bad("read", "the std::string made of " + show(m) + " is " + show(ts));
    }

    // ---------------------------------------------------------------- comparisons, searches and hashes
    static i64 sgn(int x) { return x < 0 ? -1 : x > 0; }
    static i64 ps(std::size_t x) { return x == std::string::npos ? -1 : i64(x); }
    template <class X, class A>
    static bool has(const X& x, const A& a) {
        if constexpr (std::is_same_v<X, M>)
            return x.find(a) != M::npos;
        else
            return x.contains(a);
    }
    // the same query put to a real string or to the model; x is the string, o another string of the same kind
    template <class X>
    static void query(int v, const X& x, const X& o, const M& mo, const E* p, std::size_t n, std::size_t pos, std::size_t n1, std::size_t pos2, std::size_t n2, i64* r) {
        using sv = SV;
        switch (v) {
            case 0: r[0] = ps(x.find(o, pos)), r[1] = ps(x.find(o)), r[2] = has(x, o); break;
            case 1: r[0] = ps(x.find(p, pos, n)), r[1] = ps(x.find(p, pos)), r[2] = ps(x.find(p)); break;
            case 2: r[0] = ps(x.find(*p, pos)), r[1] = ps(x.find(*p)), r[2] = has(x, *p); break;
            case 3: r[0] = ps(x.rfind(o, pos)), r[1] = ps(x.rfind(o)); break;
            case 4: r[0] = ps(x.rfind(p, pos, n)), r[1] = ps(x.rfind(p, pos)), r[2] = ps(x.rfind(p)); break;
            case 5: r[0] = ps(x.rfind(*p, pos)), r[1] = ps(x.rfind(*p)); break;
            case 6: r[0] = ps(x.find_first_of(o, pos)), r[1] = ps(x.find_first_of(p, pos, n)), r[2] = ps(x.find_first_of(p, pos)), r[3] = ps(x.find_first_of(*p, pos)); break;
            case 7: r[0] = ps(x.find_last_of(o, pos)), r[1] = ps(x.find_last_of(p, pos, n)), r[2] = ps(x.find_last_of(p, pos)), r[3] = ps(x.find_last_of(*p, pos)), r[4] = ps(x.find_last_of(p)); break;
            case 8: r[0] = ps(x.find_first_not_of(o, pos)), r[1] = ps(x.find_first_not_of(p, pos, n)), r[2] = ps(x.find_first_not_of(p, pos)), r[3] = ps(x.find_first_not_of(*p, pos)); break;
            case 9: r[0] = ps(x.find_last_not_of(o, pos)), r[1] = ps(x.find_last_not_of(p, pos, n)), r[2] = ps(x.find_last_not_of(p, pos)), r[3] = ps(x.find_last_not_of(*p, pos)), r[4] = ps(x.find_last_not_of(p)); break;
            case 10: r[0] = sgn(x.compare(o)), r[1] = sgn(x.compare(p)); break;
            case 11: r[0] = sgn(x.compare(pos, n1, o)), r[1] = sgn(x.compare(pos, n1, p)), r[2] = sgn(x.compare(pos, n1, p, n)); break;
            case 12: r[0] = sgn(x.compare(pos, n1, o, pos2, n2)); break;
            case 13: r[0] = x == o, r[1] = x != o, r[2] = x < o, r[3] = x > o, r[4] = x <= o, r[5] = x >= o, r[6] = (x <=> o) < 0, r[7] = (x <=> o) == 0; break;
            case 14: r[0] = x == p, r[1] = x != p, r[2] = x < p, r[3] = x > p, r[4] = x <= p, r[5] = x >= p; break;
            case 15: r[0] = p == x, r[1] = p != x, r[2] = p < x, r[3] = p > x, r[4] = p <= x, r[5] = p >= x; break;
            case 16: r[0] = x == mo, r[1] = x != mo, r[2] = x < mo, r[3] = x > mo, r[4] = x <= mo, r[5] = x >= mo, r[6] = (x <=> mo) < 0, r[7] = (x <=> mo) == 0; break;
            case 17: r[0] = mo == x, r[1] = mo != x, r[2] = mo < x, r[3] = mo > x, r[4] = mo <= x, r[5] = mo >= x, r[6] = (mo <=> x) < 0, r[7] = (mo <=> x) == 0; break;
            case 18: r[0] = x.starts_with(p), r[1] = x.starts_with(sv(p, n)), r[2] = x.starts_with(*p); break;
            case 19: r[0] = x.ends_with(p), r[1] = x.ends_with(sv(p, n)), r[2] = x.ends_with(*p); break;
            case 20: r[0] = has(x, p), r[1] = has(x, sv(p, n)), r[2] = has(x, *p); break;
            case 21: r[0] = SV(x) == SV(mo), r[1] = SV(x).size() == x.size(); break;
        }
    }
    // the target's characters, the needle, and where it is looked for
    void op_query(const Op& op) {
        int t = int(u64(op.a[0]) % kSlots), v = int(u64(op.a[1]) % 24), b = int(u64(op.a[2]) % kSlots);
        u64 sd = u64(op.a[3]);
        if (!S_->s[t]) return;
        if (!S_->s[b]) b = t;
        const M& m = S_->m[t];
        Rng r(sd + 77);
        std::size_t pos = r.chance(1, 12) ? m.size() + r.below(3) : r.chance(1, 10) ? M::npos : r.below(m.size() + 1);
        std::size_t n1 = r.chance(1, 6) ? M::npos : r.below(m.size() + 3);
        std::size_t pos2 = r.below(S_->m[b].size() + 1), n2 = r.chance(1, 3) ? M::npos : r.below(S_->m[b].size() + 3);
        if (v == 11 || v == 12) pos = std::min(pos, m.size());
        M needle;
        switch (r.below(5)) {
            case 0: needle = content(sd, r.below(12)); break;
            case 1: needle = m; break;
            case 2: needle.assign(1 + r.below(4), E('a' + r.below(3))); break;
            default: {
                std::size_t a = r.below(m.size() + 1);
                needle = m.substr(a, r.chance(1, 4) ? M::npos : r.below(24));
            }
        }
        if (!needle.empty() && r.chance(1, 3)) needle[r.chance(1, 2) ? needle.size() - 1 : r.below(needle.size())] ^= E(1 + r.below(3));
        if (r.chance(1, 8)) needle += E('b');
        Buf buf(needle, unsigned(sd), true);
        M other;
        other.reserve(needle.size() + 32);
        other = needle;
        const S &x = *S_->s[t], &y = *S_->s[b];
        i64 got[8] = {}, want[8] = {};
        std::size_t h = 0;
        bool hash = v >= 22;
        bool outage = r.chance(1, 2);
        if (!S_->faults) outage = false;
        if (!hash) query<M>(v, m, S_->m[b], other, buf.p, needle.size(), pos, n1, pos2, n2, want);
        f0 = kArena ? blk::failures() : 0;
        if (outage) {
            if (kArena)
                blk::outage(true);
            else
                heap::plan_cap(0);
            count("fault.memory_outage_during_query");
        }
        Ex e = guarded([&] {
            if (hash)
                h = std::hash<S>{}(x);
            else
                query<S>(v, x, y, other, buf.p, needle.size(), pos, n1, pos2, n2, got);
        });
        g_cut = 0;
        if (outage) {
            if (kArena)
                blk::heal();
            else
                heap::clear_plan();
        }
        if (shared(t) || outage) ::interesting();
        if (e != kNone) bad("query", std::string("a query ended with ") + exname(e));
        if (hash) {
            auto it = S_->hashes.emplace(m, h);
            if (!it.second && it.first->second != h) bad("query", "two strings equal to " + show(m) + " have different hashes");
        } else
            for (int i = 0; i < 8; ++i)
                if (got[i] != want[i])
                    bad("query", "query " + std::to_string(v) + "." + std::to_string(i) + " on " + show(m) + " with " + show(needle) + " or " + show(S_->m[b]) + ", pos " +
                                   std::to_string(i64(pos)) + ": " + std::to_string(got[i]) + ", std::string says " + std::to_string(want[i]));
        verify_all("query", t, false);
    }
    void op_concat(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 12), a = int(u64(o.a[2]) % kSlots), b = int(u64(o.a[3]) % kSlots);
        u64 sd = u64(o.a[4]);
        if (!S_->s[a]) return;
        bool two = v < 4;
        if (two && !S_->s[b]) return;
        if (two && (v == 1 || v == 2 || v == 3) && a == b) return;
        S& x = *S_->s[a];
        S& y = *S_->s[two ? b : a];
        const M ma = S_->m[a], mb = two ? S_->m[b] : M();
        if (ma.size() + mb.size() > max_len()) return;
        M c = content(sd, sd % 300 < 250 ? sd % 20 : sd % 300, false);
        Buf buf(c, unsigned(sd), true);
        const E* q = buf.p;
        const S& cx = x;
        const S& cy = y;
        bool ok = false;
        bool ma_moved = false, mb_moved = false;
        const char* w = "operator+";
        switch (v) {
            case 0: ok = make(t, w, kNone, ma + mb, [&](void* p) { new (p) S(cx + cy); }); break;
            case 1: ok = make(t, w, kNone, ma + mb, [&](void* p) { new (p) S(std::move(x) + cy); }); ma_moved = true; break;
            case 2: ok = make(t, w, kNone, ma + mb, [&](void* p) { new (p) S(cx + std::move(y)); }); mb_moved = true; break;
            case 3: ok = make(t, w, kNone, ma + mb, [&](void* p) { new (p) S(std::move(x) + std::move(y)); }); ma_moved = mb_moved = true; break;
            case 4: ok = make(t, w, kNone, c + ma, [&](void* p) { new (p) S(q + cx); }); break;
            case 5: ok = make(t, w, kNone, c + ma, [&](void* p) { new (p) S(q + std::move(x)); }); ma_moved = true; break;
            case 6: ok = make(t, w, kNone, E('o') + ma, [&](void* p) { new (p) S(E('o') + cx); }); break;
            case 7: ok = make(t, w, kNone, E('o') + ma, [&](void* p) { new (p) S(E('o') + std::move(x)); }); ma_moved = true; break;
            case 8: ok = make(t, w, kNone, ma + c, [&](void* p) { new (p) S(cx + q); }); break;
            case 9: ok = make(t, w, kNone, ma + c, [&](void* p) { new (p) S(std::move(x) + q); }); ma_moved = true; break;
            case 10: ok = make(t, w, kNone, ma + E('o'), [&](void* p) { new (p) S(cx + E('o')); }); break;
            default: ok = make(t, w, kNone, ma + E('o'), [&](void* p) { new (p) S(std::move(x) + E('o')); }); ma_moved = true; break;
        }
        if (ok && ma_moved && a != t) moved_from(a);
        if (ok && mb_moved && b != t) moved_from(b);
        verify_all(w, t, false);
    }

    // many copies of one string at a time
    void op_crowd(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots);
        if (!S_->s[t]) return;
        std::size_t n = o.a[1] >= kVast ? 66000 : std::size_t(u64(o.a[1]) % 700), made = 0;
        if (n > 700 && (S_->m[t].size() < 300 || S_->m[t].size() > 600)) n = 300;
        if (S_->m[t].size() > 5000 && n > 20) n = 20;
        S* p = static_cast<S*>(::malloc(n * sizeof(S) + 1));
        const S& x = *S_->s[t];
        bool ok = perform("copies", t, kNone, [&] {
            try {
                for (; made < n; ++made) new (p + made) S(x);
            } catch (...) {
                while (made) p[--made].~S();
                throw;
            }
        });
        if (ok) {
            for (std::size_t i = 0; i < n; i += 1 + n / 5) verify(p[i], S_->m[t], "copying many times", false);
            verify(*S_->s[t], S_->m[t], "copying many times", false);
            if (o.a[2] & 1 && n > 2) {  // one of them goes its own way
                M c = S_->m[t] + E('c');
                if (guarded([&] { p[n / 2] += E('c'); }) == kNone) verify(p[n / 2], c, "append to one of many copies", false);
                g_cut = 0;
            }
            CUT c;
            if (o.a[2] & 2)
                while (made) p[--made].~S();
            else
                for (std::size_t i = 0; i < n; ++i) p[i].~S();
        }
        ::free(p);
        verify_all("many copies", t, false);
    }
    void op_substr(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 2), a = int(u64(o.a[2]) % kSlots);
        if (!S_->s[a]) return;
        u64 sd = u64(o.a[3]);
        std::size_t n = len(o.a[4]);
        std::size_t sz = S_->m[a].size();
        std::size_t pos = mix64(sd) % (sz + 1);
        if (sd % 61 == 2) pos = sz + 1;
        M r;
        Ex e = kNone;
        try {
            r = S_->m[a].substr(pos, n);
        } catch (const std::out_of_range&) {
            e = kRange;
        }
        S& x = *S_->s[a];
        if (v == 0) {
            make(t, "substr", e, r, [&](void* p) { new (p) S(static_cast<const S&>(x).substr(pos, n)); });
        } else {
            bool ok = make(t, "substr&&", e, r, [&](void* p) { new (p) S(std::move(x).substr(pos, n)); });
            if (ok && a != t) moved_from(a);
        }
        verify_all("substr", t, false);
    }

    void op_huge(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 6);
        if (!S_->s[t]) return;
        static const u64 sizes[] = {~0ULL, ~0ULL - 1, ~0ULL - 24, ~0ULL / 2, (1ULL << 62) + 5, (1ULL << 62) - 1, 1ULL << 61, 1ULL << 40, (1ULL << 56) + 3, ~0ULL - 300};
        u64 n = sizes[u64(o.a[2]) % 10];
        std::size_t sz = S_->m[t].size();
        count("fault.impossible_size");
        ::interesting();
        if (v == 0 && n < sz) return;
        bool was = S_->armed;
        S_->armed = false;
        const char* w = "an operation";
        perform(w, t, kBadAlloc, [&] {
            S& s = *S_->s[t];
            switch (v) {
                case 0: s.resize(n); break;
                case 1: s.reserve(n); break;
                case 2: s.append(n, E('h')); break;
                case 3: s.insert(sz / 2, n, E('h')); break;
                case 4: s.replace(0, sz / 2, n, E('h')); break;
                default: s.assign(n, E('h')); break;
            }
        });
        S_->armed = was;
        verify_all(w, t, true);
    }

#ifndef SIM_NO_STREAMS
    // ------------------------------------------------------------ streams
    void op_stream(const Op& o) {
        int k = int(u64(o.a[0]) % kStreams);
        auto st = std::make_unique<Stream>();
        u64 sd = u64(o.a[2]);
        std::size_t n = len(o.a[1]);
        Rng r(sd);
        SM d;
        int style = int(r.below(5));
        while (d.size() < n) {
            std::size_t w = style == 0 ? r.below(6) : style == 1 ? r.below(40) : style == 2 ? r.below(400) : style == 3 ? (r.chance(1, 2) ? 63 : 126) + r.below(3) : r.below(n > 4096 ? n : 1500);
            for (std::size_t i = 0; i < w && d.size() < n; ++i) d += r.chance(1, 60) ? SE(0) : r.chance(1, 40) ? wide_char(r) : SE('a' + r.below(26));
            if (d.size() < n) d += r.pick<SE>({' ', '\n', '\n', '\t', ' ', ';', ','});
        }
        for (auto* b : {&st->b, &st->rb}) {
            b->data = d;
            b->seed = sd;
            b->mode = i64(u64(o.a[3]) % 5);
            if (S_->faults && o.a[4] >= 0) {
                b->fail_kind = 1 + o.a[4] % 3;
                b->fail_at = i64(u64(o.a[4] / 3) % (d.size() + 1));
            }
        }
        if (u64(o.a[3]) / 5 % 3 == 1) {
            st->s.imbue(odd_locale());
            st->r.imbue(odd_locale());
            count("stream.other_locale");
        }
        S_->st[k] = std::move(st);
    }
    struct ReadRes
    {
        int threw = 0;
        std::ios_base::iostate st;
        std::size_t used;
        std::streamsize width;
    };
    template <class F>
    static ReadRes do_read(IStream& is, SimBuf& b, F f) {
        ReadRes r;
        try {
            f(is);
        } catch (const std::bad_alloc&) {
            r.threw = 2;
        } catch (...) {
            r.threw = 1;
        }
        r.st = is.rdstate();
        r.used = b.consumed();
        r.width = is.width();
        return r;
    }
    template <class FS, class FM>
    void read_op(int k, int t, const char* what, FS fs, FM fm) {
        if (skipped()) return;
        auto& st = *S_->st[k];
        M mm = S_->m[t];
        u64 u0 = st.b.nund, fl0 = st.b.nfail;
        bool was_bad = !st.s.good();
        if (was_bad) count("stream.read_on_failed");
        ReadRes rr = do_read(st.r, st.rb, [&](IStream& is) { fm(is, mm); });
        bool on = arm_op();
        ReadRes rs;
        {
            CUT c;
            rs = do_read(st.s, st.b, [&](IStream& is) { fs(is, *S_->s[t]); });
        }
        g_cut = 0;
        u64 n = on ? disarm_op() : 0;
        ev(u64(rs.threw) * 100 + u64(rs.st) + rs.used * 1000);
        if (st.b.nund - u0 >= 2) {
            S_->crossed = true;
            count("stream.reads_over_several_chunks");
        }
        if (st.b.nfail > fl0) {
            count("fault.stream_error", st.b.nfail - fl0);
            ::interesting();
        }
        if (n) {  // ran out of memory while reading: the string is valid, everything else as it was
            if (rs.threw == 0 && !(rs.st & std::ios_base::badbit)) {
                // it managed without the memory
            } else {
                if (S_->threw) S_->threw->at(S_->step) = 1;
                std::size_t z;
                const E* d;
                {
                    CUT c;
                    z = S_->s[t]->size();
                    d = static_cast<const S*>(S_->s[t])->data();
                }
                if (z > 1000000) bad("invalid", std::string(what) + " without memory left a string of size " + std::to_string(z), true);
                S_->m[t] = M(d, z);
                verify_all((std::string(what) + " (failed)").c_str(), t, true);
                S_->st[k].reset();
                return;
            }
        }
        std::string pre = std::string(what) + (was_bad ? " on a failed stream" : "");
        if (rs.threw == 2) bad("stream", pre + " threw bad_alloc although no allocation failed");
        std::size_t z = S_->s[t]->size();
        M got = z < 1000000 ? M(static_cast<const S*>(S_->s[t])->data(), z) : M();
        if (sizeof(E) > 1 && st.b.nfail > fl0 && got != mm && got.compare(0, mm.size(), mm) == 0 && rs.used >= got.size() &&
            got == M(st.b.data.begin() + i64(rs.used - got.size()), st.b.data.begin() + i64(rs.used)))
            mm = got;  // libstdc++ loses up to 128 extracted wide characters when the buffer throws; keeping them is what the standard asks for
        if (z != mm.size() || got != mm) bad("stream-content", pre + " stored " + show(got) + ", std::string gets " + show(mm));
        // a std::string read that throws on badbit does not get to the failbit of an empty result
        if (rs.threw && rr.threw && (rs.st & rr.st & std::ios_base::badbit)) rs.st = rr.st;
        if (rs.st != rr.st) bad("stream-state", pre + " left stream state " + std::to_string(rs.st) + ", std::string leaves " + std::to_string(rr.st));
        if (rs.used != rr.used) bad("stream-position", pre + " consumed up to " + std::to_string(rs.used) + ", std::string up to " + std::to_string(rr.used));
        if (rs.threw != rr.threw) bad("stream-exception", pre + (rs.threw ? " threw, std::string does not" : " did not throw, std::string does"));
        if (rs.width != rr.width) bad("stream-width", pre + " left width " + std::to_string(rs.width) + ", std::string leaves " + std::to_string(rr.width));
        S_->m[t] = mm;
        verify_all(what, t, false);
    }
    void op_getline(const Op& o) {
        int k = int(u64(o.a[0]) % kStreams), t = int(u64(o.a[1]) % kSlots);
        if (!S_->st[k] || !S_->s[t]) return;
        if (shared(t)) S_->shared_mutated = true;
        switch (u64(o.a[2]) % 4) {
            case 0: read_op(k, t, "getline(';')", [](IStream& i, S& s) { getline(i, s, SE(';')); }, [](IStream& i, M& m) { std::getline(i, m, SE(';')); }); break;
            case 1: read_op(k, t, "getline('\\0')", [](IStream& i, S& s) { getline(i, s, SE(0)); }, [](IStream& i, M& m) { std::getline(i, m, SE(0)); }); break;
            default: read_op(k, t, "getline", [](IStream& i, S& s) { getline(i, s); }, [](IStream& i, M& m) { std::getline(i, m); }); break;
        }
    }
    void op_extract(const Op& o) {
        int k = int(u64(o.a[0]) % kStreams), t = int(u64(o.a[1]) % kSlots);
        if (!S_->st[k] || !S_->s[t]) return;
        if (shared(t)) S_->shared_mutated = true;
        i64 wd = o.a[2];
        bool skip = o.a[3] & 1;
        for (auto* s : {&S_->st[k]->s, &S_->st[k]->r}) {
            s->width(wd);
            if (skip)
                s->setf(std::ios_base::skipws);
            else
                s->unsetf(std::ios_base::skipws);
        }
        read_op(k, t, "operator>>", [](IStream& i, S& s) { i >> s; }, [](IStream& i, M& m) { i >> m; });
    }
    void op_sctl(const Op& o) {
        int k = int(u64(o.a[0]) % kStreams);
        if (!S_->st[k]) return;
        for (auto* s : {&S_->st[k]->s, &S_->st[k]->r}) {
            try {
                switch (u64(o.a[1]) % 6) {
                    case 0: s->clear(); break;
                    case 1: s->exceptions(std::ios_base::iostate(u64(o.a[2]) % 8)); break;
                    case 2: s->get(); break;
                    case 3: s->setstate(std::ios_base::failbit); break;
                    case 4: s->ignore(1); break;
                    default: s->exceptions(std::ios_base::goodbit); break;
                }
            } catch (...) {
            }
        }
    }
    void op_print(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots);
        if (!S_->s[t]) return;
        SinkBuf a, b;
        OStream oa(&a), ob(&b);
        int threw[2] = {0, 0};
        bool lim = o.a[3] > 0 && S_->faults;
        int i = 0;
        for (auto* p : {&a, &b}) {
            if (lim) p->cap = std::size_t(o.a[3] - 1);
            p->throws = lim && (o.a[4] & 8);
        }
        for (auto* os : {&oa, &ob}) {
            os->width(o.a[1]);
            os->fill(o.a[2] & 1 ? '*' : ' ');
            if (o.a[4] & 1) os->setf(std::ios_base::left, std::ios_base::adjustfield);
            if (o.a[4] & 2) os->setf(std::ios_base::internal, std::ios_base::adjustfield);
            if (o.a[4] & 4) {
                try {
                    os->exceptions(std::ios_base::badbit | std::ios_base::failbit);
                } catch (...) {
                }
            }
            try {
                if (i == 0) {
                    CUT c;
                    *os << static_cast<const S&>(*S_->s[t]);
                } else {
                    *os << S_->m[t];
                }
            } catch (...) {
                threw[i] = 1;
            }
            g_cut = 0;
            ++i;
        }
        if (lim) {
            count("fault.stream_full");
            if (oa.rdstate() != 0) ::interesting();
        }
        if (a.out != b.out) bad("stream-output", "operator<< wrote " + show(a.out) + ", std::string writes " + show(b.out));
        if (oa.rdstate() != ob.rdstate() || oa.width() != ob.width() || threw[0] != threw[1])
            bad("stream-output-state", "operator<< left state " + std::to_string(oa.rdstate()) + " width " + std::to_string(oa.width()) +
                                         ", std::string leaves " + std::to_string(ob.rdstate()) + " width " + std::to_string(ob.width()));
        verify_all("operator<<", t, false);
    }

    void stream_step(const Op& o) {
        switch (o.code) {
            case STREAM: op_stream(o); break;
            case GETLINE: op_getline(o); break;
            case EXTRACT: op_extract(o); break;
            case SCTL: op_sctl(o); break;
            case PRINT: op_print(o); break;
            case GIANT: op_giant(); break;
            case CROWD: op_crowd(o); break;
            default: break;
        }
    }
    // (one regression trace, never generated) a string of more than 2^31 characters is written
    void op_giant() {
        struct Counter : std::basic_streambuf<SE>
        {
            u64 n = 0, odd = 0;
            typename std::basic_streambuf<SE>::int_type overflow(typename std::basic_streambuf<SE>::int_type c) override {
                ++n;
                odd += c != SE('g');
                return c;
            }
            std::streamsize xsputn(const SE* s, std::streamsize k) override {
                for (std::streamsize i = 0; i < k; i += 4096) odd += s[i] != SE('g');
                n += u64(k);
                return k;
            }
        } b;
        if (sizeof(E) > 1) return;
        constexpr std::size_t n = (std::size_t(1) << 31) + 5;
        OStream os(&b);
        Ex e = guarded([&] {
            Harness h;
            S s(n, E('g'));
            os << s;
        });
        g_cut = 0;
        if (e == kBadAlloc) return;  // there is no room for it here
        if (e != kNone || b.n != n || b.odd || !os.good())
            bad("stream-output", "operator<< of " + std::to_string(n) + " characters wrote " + std::to_string(b.n) + ", state " + std::to_string(os.rdstate()));
    }
#endif
    // formatting and conversions: they return a std::string and may run out of memory as well
    void op_format(const Op& o) {
#ifdef SIM_NARROW
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 6);
        if (!S_->s[t]) return;
        std::size_t w = u64(o.a[2]) % 700, prec = u64(o.a[3]) % 700;
        const M& m = S_->m[t];
        M want = v == 1 ? fmt::format("{:*>{}}", m, w) : v == 2 ? fmt::format("<{:<{}.{}}>", m, w, prec) : v == 3 ? fmt::format("{:-^{}}{}", m, w, m) : m;
        M got;
        got.reserve(want.size() + 32);
        on_heap = true;
        perform("formatting", t, kNone, [&] {
            const S& s = *S_->s[t];
            M r;
            switch (v) {
                case 0: r = fmt::format("{}", s); break;
                case 1: r = fmt::format("{:*>{}}", s, w); break;
                case 2: r = fmt::format("<{:<{}.{}}>", s, w, prec); break;
                case 3: r = fmt::format("{:-^{}}{}", s, w, s); break;
#ifdef SIM_ARENA_STRING
                default: r = M(SV(s)); break;
#else
                case 4: r = std::to_string(s); break;
                default: r = s.toStdString(); break;
#endif
            }
            Harness h;
            got.assign(r.data(), r.size());
        });
        on_heap = false;
        if (got != want) bad(S_->t->prop == "C12" ? "stream-output" : "read", "formatting gives " + show(got) + ", the same with std::string " + show(want));
        verify_all("formatting", t, false);
#endif
    }
    void step(const Op& o) {
        on_heap = false;
        int t = int(u64(o.a[0]) % kSlots);
        switch (o.code) {
            case NEW: op_new(o); break;
            case DEL:
                destroy(t);
                verify_all("destruction", -1, false);
                break;
            case ASSIGN: op_assign(o); break;
            case APPEND: op_append(o); break;
            case INSERT: op_insert(o); break;
            case ERASE: op_erase(o); break;
            case REPLACE: op_replace(o); break;
            case RESIZE:
                if (S_->s[t]) {
                    std::size_t n = len(o.a[1]);
                    if (o.a[2] & 1)
                        apply(t, "resize", [&](S& s) { s.resize(n); return 0; }, [&](M& m) { m.resize(n); return 0; });
                    else
                        apply(t, "resize", [&](S& s) { s.resize(n, E('R')); return 0; }, [&](M& m) { m.resize(n, E('R')); return 0; });
                }
                break;
            case RESERVE:
                if (S_->s[t]) {
                    std::size_t n = len(o.a[1]);
                    bool ok = apply(t, "reserve", [&](S& s) { s.reserve(n); return 0; }, [&](M&) { return 0; });
                    if (ok && S_->s[t]->capacity() < n) bad("reserve", "capacity() is below the reserved size");
                }
                break;
            case SHRINK:
                if (S_->s[t]) apply(t, "shrink_to_fit", [&](S& s) { s.shrink_to_fit(); return 0; }, [&](M&) { return 0; });
                break;
            case MUTATE: op_mutate(o); break;
            case SWAP: {
                int b = int(u64(o.a[1]) % kSlots);
                if (!S_->s[t] || !S_->s[b]) break;
                int v = int(u64(o.a[2]) % 3);
                if (v == 2 && t == b) v = 0;
                if (shared(t) || shared(b)) S_->shared_mutated = true;
                bool ok = perform("swap", t, kNone, [&] {
                    S &x = *S_->s[t], &y = *S_->s[b];
                    if (v == 0)
                        x.swap(y);
                    else if (v == 1)
                        swap(x, y);
                    else
                        std::swap<S>(x, y);
                });
                if (ok && t != b) std::swap(S_->m[t], S_->m[b]);
                verify_all("swap", t, false);
                break;
            }
            case CONCAT: op_concat(o); break;
            case SUBSTR: op_substr(o); break;
            case READ: op_read(o); break;
            case QUERY: op_query(o); break;
            case FORMAT: op_format(o); break;
            case HUGE_REQ: op_huge(o); break;
            case OOM:
                S_->armed = true;
                S_->fk = o.a[0];
                S_->fl = o.a[1];
                break;
            case OUTAGE: S_->outage = o.a[0] != 0; break;
            case HEAL: S_->armed = S_->outage = false; break;
            case ARESET:
                if (kArena) {
                    int a = int(u64(o.a[0]) % kArenas);
                    for (int i = 0; i < kSlots; ++i) {
                        if (S_->s[i] && resource_of(*S_->s[i]) == S_->arena[a]->get_memory_resource()) destroy(i);
                    }
                    {
                        CUT c;
                        (void)S_->arena[a]->Reset();
                    }
                    verify_all("Reset of another arena", -1, false);
                }
                break;
            default:
#ifndef SIM_NO_STREAMS
                stream_step(o);
#endif
                break;
        }
    }

    static void* block_alloc(std::size_t n) {
        Harness h;
        return blk::alloc(n, 0);
    }
    static void block_dealloc(void* p) {
        Harness h;
        const char* err = "";
        if (!blk::release(p, 0, &err)) fail("block:release", "%s", err);
    }

    // executes the trace; the first disagreement with the model is returned
    bool exec(const Trace& t, bool faults, std::vector<char>& threw, Mismatch& mm, bool leak_on_mismatch) {
        auto* st = new State;
        S_ = st;
        st->t = &t;
        st->faults = faults;
        st->vast = t.c("vast") != 0;
        st->threw = &threw;
        blk::begin_run(t.seed, t.c("placement"), 1);
        if (kArena) {
            for (int i = 0; i < kArenas; ++i) {
                sm::Arena::Options o{};
                o.normal_block_size = 64ULL << (t.c("block") + i) % 6;
                if (o.normal_block_size < 128) o.normal_block_size = 128;
                o.huge_block_size = o.normal_block_size * 4;
                o.suggested_init_block_size = o.normal_block_size;
                o.block_alloc = block_alloc;
                o.block_dealloc = block_dealloc;
                o.logger_func = [](const std::string&) {};
                CUT c;
                st->arena[i] = new sm::Arena(o);
            }
        }
        bool okay = true;
        try {
            for (std::size_t i = 0; i < t.ops.size(); ++i) {
                st->step = i;
                g_slot->step.store(i);
                const Op& o = t.ops[i];
                logf("%3zu %s %lld %lld %lld %lld %lld\n", i, kOps[size_t(o.code)].name, (long long)o.a[0], (long long)o.a[1], (long long)o.a[2],
                     (long long)o.a[3], (long long)o.a[4]);
                ev(u64(o.code) + 1);
                step(o);
                for (int k = 0; k < kSlots; ++k)
                    if (st->s[k]) ev(hash_bytes(st->m[k].data(), st->m[k].size() * sizeof(E)));
                note(o.code);
                if (g_verbose)
                    for (int k = 0; k < kSlots; ++k)
                        if (st->s[k]) logf("      s%d = %s cap %zu%s\n", k, show(st->m[k]).c_str(), st->s[k]->capacity(), shared(k) ? " shared" : "");
            }
            st->outage = st->armed = false;
            for (int k = 0; k < kSlots; ++k)  // usable to the end
                if (st->s[k]) apply(k, "push_back", [&](S& s) { s.push_back(E('!')); return 0; }, [&](M& m) { m.push_back(E('!')); return 0; });
            u64 order = mix64(t.seed);
            for (int i = 0; i < kSlots; ++i) {
                int k = int((order + u64(i)) % kSlots);
                destroy(k);
                verify_all("destruction", -1, false);
            }
            for (auto& x : st->st) x.reset();
        } catch (const Mismatch& e) {
            g_cut = 0;
            mm = e;
            okay = false;
        }
        bool sh = st->shared_mutated, cr = st->crossed;
        if (okay) {
            if (kArena)
                for (auto* a : st->arena) {
                    CUT c;
                    delete a;
                }
            if (faults) {
                if ((t.prop == "C10" || t.prop == "C13") && sh) ::interesting();
                if (t.prop == "C12" && cr) ::interesting();
                if (sh) count("run.shared_buffer_mutated");
            }
            delete st;
        } else if (!leak_on_mismatch) {
            for (auto& x : st->st) x.reset();
        }
        S_ = nullptr;
        return okay;
    }
    void note(int code) {
        // abstract state: the classes of all strings, what is shared with what, the operation
        u64 h = u64(code);
        for (int k = 0; k < kSlots; ++k) {
            u64 c = 0;
            if (S_->s[k]) {
                std::size_t n = S_->m[k].size(), cap = S_->s[k]->capacity();
                c = 1 + (n == 0 ? 0 : n < 23 ? 1 : n == 23 ? 2 : n < 254 ? 3 : n < 256 ? 4 : 5) * 4 + (cap == n ? 0 : cap < 23 + 1 ? 1 : cap < 255 ? 2 : 3);
                for (int j = 0; j < k; ++j)
                    if (same_buffer(j, k)) {
                        c += 64 * u64(j + 1);
                        break;
                    }
            }
            h = mix2(h, c);
        }
        note_state(h);
    }

   public:
#ifdef SIM_ARENA_STRING
    const char* name() const override { return "astring"; }
    const char* components() const override {
        return "real: string/arena_string.hpp, string/string.hpp, arena/*, align/*; simulated: block allocator";
    }
#else
    const char* name() const override { return "string"; }
    const char* components() const override {
        return "real: string/string.hpp; simulated: malloc/realloc/free, stream buffers; reference: std::string";
    }
#endif
    const std::vector<OpDesc>& ops() const override { return kOps; }

    void generate(Rng& r, const std::string& prop, Trace& t) override {
        t.cfg["placement"] = i64(r.below(4));
        t.cfg["block"] = i64(r.below(6));
        bool io = prop == "C12";
        bool oom = prop == "C11" || (prop == "C13" && r.chance(2, 3));
        int ns = 1 + int(r.below(kSlots));
        if (ns == 1 && r.chance(1, 2)) ns = 2;
        std::vector<u32> w(kOps.size(), 0);
        w[NEW] = 10;
        w[DEL] = 2;
        w[ASSIGN] = 12;
        w[APPEND] = 10;
        w[INSERT] = 8;
        w[ERASE] = 6;
        w[REPLACE] = 9;
        w[RESIZE] = 4;
        w[RESERVE] = 3;
        w[SHRINK] = 3;
        w[MUTATE] = 10;
        w[SWAP] = 3;
        w[CONCAT] = 5;
        w[SUBSTR] = 4;
        w[READ] = 2;
        w[FORMAT] = 2;
        if (prop == "C11") w[FORMAT] = 4;
        if (r.chance(1, 6)) w[CROWD] = 2;
        if (prop == "C10" || prop == "C11") w[GETLINE] = 1, w[EXTRACT] = 1, w[STREAM] = 1;
        if (prop == "C11") w[GETLINE] = 2, w[EXTRACT] = 2, w[STREAM] = 2, w[HUGE_REQ] = 4, w[READ] = 0;
        if (oom) w[OOM] = prop == "C11" ? 45 : 20, w[HEAL] = 2, w[OUTAGE] = r.chance(1, 4) ? 3 : 0;
        if (kArena) w[ARESET] = 2, w[HUGE_REQ] = oom ? 3 : 1;
        if (prop == "C19") w[QUERY] = 60, w[OOM] = 6, w[NEW] = 16;
        if (prop == "C13") w[QUERY] = 3;
        if (io) {
            for (auto& x : w) x = x > 3 ? 2 : x > 0;
            w[NEW] = 5;
            w[STREAM] = 4;
            w[GETLINE] = 25;
            w[EXTRACT] = 20;
            w[SCTL] = 8;
            w[PRINT] = 8;
        }
        for (auto& x : w)
            if (x && r.chance(1, 10)) x = 0;  // swarm
        w[NEW] += 2;
        int n = 6 + int(r.below(r.chance(1, 4) ? 100 : 36));
        bool biglean = r.chance(1, 2);
        bool vast = r.chance(1, 100);
        if (vast) t.cfg["vast"] = 1, n = 3 + int(r.below(8));
        auto add = [&](int code, std::initializer_list<i64> a) {
            Op o;
            o.code = code;
            int i = 0;
            for (i64 x : a) o.a[i++] = x;
            t.ops.push_back(o);
        };
        auto ln = [&]() -> i64 {
            if (vast && r.chance(1, 2)) return kVast + (r.chance(1, 2) ? r.pick<i64>({4096, 8192, 16384, 32768, 65536, 131072, 262000}) + r.range(-40, 40) : r.range(4000, 140000));
            switch (r.below(biglean ? 10 : 6)) {
                case 0: return r.pick<i64>({0, 1, 2, 3});
                case 1: return r.range(20, 26);
                case 2: return r.range(0, 40);
                case 3: return r.range(250, 258);
                case 4: return r.range(0, 120);
                case 5: return r.range(100, 400);
                case 6: return r.range(255, 600);
                case 7: return r.range(255, 700);
                case 8: return r.range(300, 1500);
                default: return r.range(0, 300);
            }
        };
        auto sl = [&] { return i64(r.below(u64(ns))); };
        auto sd = [&] { return i64(r.below(1000000)); };
        int base = std::min(ns, 1 + int(r.below(3)));
        for (int i = 0; i < base; ++i) add(NEW, {i64(i), i64(r.below(10)), biglean ? r.range(255, 600) : ln(), sd(), sl()});
        if (biglean)
            for (int i = base; i < ns; ++i) add(NEW, {i64(i), 10, 0, sd(), i64(r.below(u64(base)))});
        if (io) {
            for (int i = base; i < ns; ++i) add(NEW, {i64(i), i64(r.below(14)), ln(), sd(), sl()});
        }
        auto stream = [&](i64 k) {
            i64 f = r.chance(1, 2) ? -1 : i64(r.below(3000));
            i64 len = r.pick<i64>({30, 100, 300, 1000, 2500});
            if (vast) {
                add(STREAM, {k, kVast + r.range(4000, 140000), sd(), i64(r.below(15)), f < 0 ? f : r.range(0, 140000)});
                return;
            }
            add(STREAM, {k, i64(r.below(u64(len))), sd(), i64(r.below(15)), f});
        };
        if (io) stream(0);
        bool pending = false;
        for (int i = 0; i < n; ++i) {
            int code = int(r.weighted(w));
            if (pending && (code == OOM || code == READ || code == QUERY || code == DEL || code == OUTAGE || code == HEAL || code == ARESET || code == HUGE_REQ))
                code = r.pick({int(ASSIGN), int(APPEND), int(INSERT), int(REPLACE), int(RESIZE), int(NEW), int(MUTATE), int(ERASE), int(CONCAT), int(SUBSTR), int(RESERVE), int(SHRINK), int(FORMAT), w[GETLINE] ? int(GETLINE) : int(APPEND), w[EXTRACT] ? int(EXTRACT) : int(ASSIGN)});
            pending = false;
            switch (code) {
                case NEW: add(NEW, {sl(), r.chance(1, 2) ? i64(10 + r.below(4)) : i64(r.below(14)), ln(), sd(), sl()}); break;
                case DEL: add(DEL, {sl()}); break;
                case ASSIGN: add(ASSIGN, {sl(), i64(r.below(20)), ln(), sd(), sl()}); break;
                case APPEND: add(APPEND, {sl(), i64(r.below(19)), ln(), sd(), sl()}); break;
                case INSERT: add(INSERT, {sl(), i64(r.below(15)), ln(), sd(), sl()}); break;
                case ERASE: add(ERASE, {sl(), i64(r.below(6)), ln(), sd()}); break;
                case REPLACE: add(REPLACE, {sl(), i64(r.below(16)), ln(), sd(), sl()}); break;
                case RESIZE: add(RESIZE, {sl(), ln(), i64(r.below(2))}); break;
                case RESERVE: add(RESERVE, {sl(), ln()}); break;
                case SHRINK: add(SHRINK, {sl()}); break;
                case MUTATE: add(MUTATE, {sl(), i64(r.below(9)), sd()}); break;
                case SWAP: add(SWAP, {sl(), sl(), i64(r.below(3))}); break;
                case CONCAT: add(CONCAT, {sl(), i64(r.below(12)), sl(), sl(), sd()}); break;
                case SUBSTR: add(SUBSTR, {sl(), i64(r.below(2)), sl(), sd(), ln()}); break;
                case READ: add(READ, {sl(), sd()}); break;
                case QUERY: add(QUERY, {sl(), i64(r.below(24)), sl(), sd()}); break;
                case HUGE_REQ: add(HUGE_REQ, {sl(), i64(r.below(6)), i64(r.below(10))}); break;
                case OOM:
                    add(OOM, {r.chance(2, 3) ? 0 : i64(r.below(3)), r.chance(1, 2) ? 1 : 100});
                    pending = true;
                    break;
                case OUTAGE: add(OUTAGE, {1}); break;
                case HEAL: add(HEAL, {}); break;
                case ARESET: add(ARESET, {i64(r.below(kArenas))}); break;
                case STREAM: stream(i64(r.below(kStreams))); break;
                case GETLINE: add(GETLINE, {r.chance(3, 4) ? 0 : 1, sl(), i64(r.below(4))}); break;
                case EXTRACT: add(EXTRACT, {r.chance(3, 4) ? 0 : 1, sl(), r.chance(2, 3) ? 0 : i64(r.below(70)), r.chance(3, 4)}); break;
                case SCTL: add(SCTL, {r.chance(3, 4) ? 0 : 1, i64(r.below(6)), i64(r.below(8))}); break;
                case PRINT: add(PRINT, {sl(), r.chance(1, 2) ? 0 : i64(r.below(400)), i64(r.below(2)), r.chance(1, 2) ? 0 : i64(r.below(300)), i64(r.below(16))}); break;
                case CROWD: add(CROWD, {sl(), r.chance(1, 20) ? kVast : r.range(1, 600), i64(r.below(4))}); break;
                case FORMAT: add(FORMAT, {sl(), i64(r.below(6)), r.range(0, 699), r.range(0, 699)}); break;
                default: break;
            }
        }
    }

    void run(const Trace& t) override {
        std::vector<char> threw(t.ops.size() + 1, 0), none(t.ops.size() + 1, 0);
        Mismatch m;
        if (exec(t, true, threw, m, false)) {
            heap::check_empty(kArena ? "C13" : "C10,C11", "leak");
            return;
        }
        std::size_t at = g_slot->step.load();
        bool stream = m.kind.rfind("stream", 0) == 0;
        std::string pfx;
        if (kArena) {
            pfx = "C13:";
        } else if (t.prop == "C12") {
            if (!stream) return;  // value semantics are decided by C10
            pfx = "C12:";
        } else if (t.prop == "C19") {
            if (m.kind != "query") return;
            pfx = "C19:";
        } else if (t.prop == "C10") {
            if (stream) return;
            pfx = "C10:";
        } else {  // C11: only what the failures caused
            if (stream) return;
            if (!m.oom && m.kind != "spurious-bad-alloc") {
                // control: the same history without the failed attempts. If it disagrees as well, running out of memory is not the cause.
                Mismatch m2;
                heap::begin_run(t.seed);
                if (!exec(t, false, threw, m2, true) && g_slot->step.load() <= at) return;
            }
            pfx = "C11:";
        }
        g_slot->step.store(at);
        fail((pfx + m.kind).c_str(), "%s", m.msg.c_str());
    }
};
}  // namespace

sim::World* sim::make_world() { return new StringWorld(); }
