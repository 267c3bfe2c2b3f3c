#pragma once
// Simulated world of vectors (C14 - C17): every operation is applied to a real stdb_vector<T> and to a std::vector of plain
// values, for element types of every category. Faults: allocation failures and element constructors that throw.
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <stdexcept>
#include <unordered_set>
#include <vector>

#include "container/stdb_vector.hpp"
#include "core.hpp"
#include "string/string.hpp"

using namespace sim;
namespace sc = stdb::container;

namespace vw {
// ---------------------------------------------------------------- elements
struct Boom
{};
struct Res
{
    i64 v;
    u64 magic;
    int owners;
};
namespace reg {
inline std::unordered_set<const void*> objs;  // constructed objects of the types that are never copied byte by byte
inline u64 nres = 0;                          // live resources
inline i64 at = -1, len = 0;                  // the at-th construction throws, and the len-1 following ones
inline u64 fired = 0, ctors = 0, dtors = 0;
inline std::string err;
inline void reset() {
    objs.clear();
    nres = 0;
    at = -1;
    fired = ctors = dtors = 0;
    err.clear();
}
inline void error(const char* e) {
    if (err.empty()) err = e;
}
inline void point() {
    if (g_cut <= 0 || at < 0) return;
    if (at-- > 0) return;
    at = --len > 0 ? 0 : -1;
    ++fired;
    throw Boom{};
}
inline void add(const void* p) {
    Harness h;
    ++ctors;
    if (!objs.insert(p).second) error("an element was constructed on top of a live element");
}
inline void del(const void* p) {
    Harness h;
    ++dtors;
    if (!objs.erase(p)) error("something that is not a live element was destroyed");
}
inline void check(const void* p) {
    if (!objs.count(p)) error("an element of a vector is not a live object");
}
inline Res* make(i64 v) {
    Harness h;
    Res* r = static_cast<Res*>(::malloc(sizeof(Res)));
    *r = Res{v, 0x600DCAFE, 1};
    ++nres;
    return r;
}
inline void drop(Res* r) {
    if (!r) return;
    Harness h;
    if (r->magic != 0x600DCAFE) {
        error("a resource was released twice");
        return;
    }
    if (--r->owners) return;
    r->magic = 0;
    --nres;
    ::free(r);
}
inline i64 get(const Res* r) { return r ? r->v : -1; }
}  // namespace reg

#define CMP(T)                                                                   \
    friend bool operator==(const T& a, const T& b) {                             \
        reg::point();                                                            \
        return a.value() == b.value();                                           \
    }                                                                            \
    friend bool operator<(const T& a, const T& b) { return a.value() < b.value(); }   \
    friend bool operator>(const T& a, const T& b) { return a.value() > b.value(); }

struct Big
{
    i64 v;
    unsigned char pad[192];
    Big() = default;
    explicit Big(i64 x) : v(x) { std::memset(pad, int(x & 0xff), sizeof pad); }
    i64 value() const {
        for (auto c : pad)
            if (c != (v & 0xff)) return -777;
        return v;
    }
    CMP(Big)
};
struct Giant  // does not fit into 128 KB
{
    i64 v;
    unsigned char pad[131072 + 1000];
    i64 w;
    Giant() = default;
    explicit Giant(i64 x) : v(x), w(x) { pad[0] = pad[sizeof pad - 1] = (unsigned char)x; }
    i64 value() const { return w == v && pad[0] == (v & 0xff) && pad[sizeof pad - 1] == (v & 0xff) ? v : -777; }
    CMP(Giant)
};
struct Odd  // 12 bytes
{
    u32 a, b, c;
    Odd() = default;
    explicit Odd(i64 x) : a(u32(x)), b(u32(x * 3)), c(u32(x * 7)) {}
    i64 value() const { return b == a * 3 && c == a * 7 ? i64(a) : -777; }
    CMP(Odd)
};
// trivially copyable, but its default is not all zero bytes
struct Preset
{
    u32 raw = 0x5EED0000;
    u32 tag = 0xABCD;
    Preset() = default;
    explicit Preset(i64 x) : raw(u32(x) ^ 0x5EED0000) {}
    i64 value() const { return tag == 0xABCD ? i64(raw ^ 0x5EED0000) : -777; }
    CMP(Preset)
};
// trivially default constructible, but its null pointer is not all zero bytes
struct MemPtr
{
    i64 v;
    u32 Preset::*p;
    MemPtr() = default;
    explicit MemPtr(i64 x) : v(x), p(x == 0 ? nullptr : x % 2 ? &Preset::raw : &Preset::tag) {}
    i64 value() const { return p == (v == 0 ? nullptr : v % 2 ? &Preset::raw : &Preset::tag) ? v : -777; }
    CMP(MemPtr)
};
// one byte, not trivially default constructible
struct Tag
{
    u8 c;
    Tag() : c(0x55) {}
    explicit Tag(i64 x) : c(u8(x) ^ 0x55) {}
    i64 value() const { return c ^ 0x55; }
    explicit operator int() const { return c ^ 0x55; }
    CMP(Tag)
};
// owns a resource, may be moved byte by byte, all zero bytes are its default
struct Reloc
{
    Res* r;
    Reloc() : r(nullptr) { reg::point(); }
    explicit Reloc(i64 v) : r((reg::point(), reg::make(v))) {}
    Reloc(const Reloc& o) : r(nullptr) {
        reg::point();
        if (o.r) r = reg::make(o.r->v);
    }
    Reloc(Reloc&& o) noexcept : r(std::exchange(o.r, nullptr)) {}
    Reloc& operator=(const Reloc& o) {
        if (this != &o) {
            Res* n = o.r ? reg::make(o.r->v) : nullptr;
            reg::drop(r);
            r = n;
        }
        return *this;
    }
    Reloc& operator=(Reloc&& o) noexcept {
        std::swap(r, o.r);
        return *this;
    }
    ~Reloc() { reg::drop(r); }
    i64 value() const { return r ? r->v : 0; }
    CMP(Reloc)
};
struct MoveOnly
{
    Res* r;
    MoveOnly() : MoveOnly(0) {}
    explicit MoveOnly(i64 v) : r(nullptr) {
        reg::point();
        r = reg::make(v);
        reg::add(this);
    }
    MoveOnly(MoveOnly&& o) noexcept : r(std::exchange(o.r, nullptr)) { reg::add(this); }
    MoveOnly& operator=(MoveOnly&& o) noexcept {
        std::swap(r, o.r);
        return *this;
    }
    ~MoveOnly() {
        reg::drop(r);
        reg::del(this);
    }
    i64 value() const { return reg::get(r); }
    CMP(MoveOnly)
};
struct CopyOnly  // can not even be assigned
{
    Res* r;
    CopyOnly() : CopyOnly(0) {}
    explicit CopyOnly(i64 v) : r(nullptr) {
        reg::point();
        r = reg::make(v);
        reg::add(this);
    }
    CopyOnly(const CopyOnly& o) : CopyOnly(o.value()) {}
    CopyOnly(CopyOnly&&) = delete;
    CopyOnly& operator=(const CopyOnly&) = delete;
    ~CopyOnly() {
        reg::drop(r);
        reg::del(this);
    }
    i64 value() const { return reg::get(r); }
    CMP(CopyOnly)
};
struct Ordinary
{
    Res* r;
    Ordinary() : Ordinary(0) {}
    explicit Ordinary(i64 v) : r(nullptr) {
        reg::point();
        r = reg::make(v);
        reg::add(this);
    }
    Ordinary(const Ordinary& o) : Ordinary(o.value()) {}
    Ordinary(Ordinary&& o) noexcept : r(std::exchange(o.r, nullptr)) { reg::add(this); }
    Ordinary& operator=(const Ordinary& o) {
        if (this != &o) {
            Res* n = reg::make(o.value());
            reg::drop(r);
            r = n;
        }
        return *this;
    }
    Ordinary& operator=(Ordinary&& o) noexcept {
        std::swap(r, o.r);
        return *this;
    }
    ~Ordinary() {
        reg::drop(r);
        reg::del(this);
    }
    i64 value() const { return reg::get(r); }
    CMP(Ordinary)
};
struct Legacy  // only a copy constructor, which may throw
{
    Res* r;
    Legacy() : Legacy(0) {}
    explicit Legacy(i64 v) : r(nullptr) {
        reg::point();
        r = reg::make(v);
        reg::add(this);
    }
    Legacy(const Legacy& o) : Legacy(o.value()) {}
    Legacy& operator=(const Legacy& o) {
        if (this != &o) {
            Res* n = reg::make(o.value());
            reg::drop(r);
            r = n;
        }
        return *this;
    }
    ~Legacy() {
        reg::drop(r);
        reg::del(this);
    }
    i64 value() const { return reg::get(r); }
    CMP(Legacy)
};
struct Handle  // shares its resource, only a noexcept copy constructor
{
    Res* r;
    Handle() : Handle(0) {}
    explicit Handle(i64 v) : r(reg::make(v)) { reg::add(this); }
    Handle(const Handle& o) noexcept : r(o.r) {
        if (r) ++r->owners;
        reg::add(this);
    }
    Handle& operator=(const Handle& o) noexcept {
        Res* n = o.r;
        if (n) ++n->owners;
        reg::drop(r);
        r = n;
        return *this;
    }
    ~Handle() {
        reg::drop(r);
        reg::del(this);
        r = nullptr;
    }
    i64 value() const { return reg::get(r); }
    CMP(Handle)
};
using Str = stdb::memory::string;
}  // namespace vw
using namespace vw;

namespace stdb {
template <>
struct Relocatable<Reloc> : std::true_type
{};
template <>
struct ZeroInitable<Reloc> : std::true_type
{};
}  // namespace stdb

namespace vw {
inline bool g_large_only = false;  // strings whose copies need no memory
inline std::string text(i64 v) {
    std::string s = std::to_string(v) + ":";
    int c = g_large_only ? 2 : int(v % 3);
    s.append(c == 0 ? std::size_t(v % 7) : c == 1 ? std::size_t(40 + v % 50) : std::size_t(300 + v % 60), char('a' + v % 26));
    s.reserve(s.size() + 16);
    return s;
}
template <class T>
T mk(i64 v) {
    if constexpr (std::is_same_v<T, Str>) {
        if (v == 0) return Str();
        std::string s;
        {
            Harness h;
            s = text(v);
        }
        T r(s.data(), s.size());
        {
            Harness h;
            std::string().swap(s);
        }
        return r;
    } else
        return T(v);
}
template <class T>
i64 val(const T& t) {
    if constexpr (std::is_same_v<T, Str>) {
        if (t.size() == 0) return 0;
        i64 v = 0;
        std::size_t i = 0;
        while (i < t.size() && t.data()[i] >= '0' && t.data()[i] <= '9') v = v * 10 + (t.data()[i++] - '0');
        std::string s = text(v);
        return s.size() == t.size() && std::memcmp(s.data(), t.data(), s.size()) == 0 && v ? v : -777;
    } else if constexpr (std::is_arithmetic_v<T>)
        return i64(t);
    else
        return t.value();
}

using M = std::vector<i64>;
enum Mode { kQuiet, kStrong, kWeak };  // what a throwing element may do in an operation: not injected, changes nothing, leaves it valid
enum Ex { kNone, kBadAlloc, kLength, kBoom, kOther };
inline const char* exname(Ex e) {
    static const char* n[] = {"no exception", "bad_alloc", "length_error", "the exception of the element", "another exception"};
    return n[e];
}
struct Mismatch
{
    std::string kind, msg;
    bool direct;  // seen directly after a failed operation
};

constexpr int kSlots = 4;
constexpr int kTypes = 15;
enum OpCode { NEW, DEL, ASSIGN, PUSH, INSERT, ERASE, RESIZE, RESERVE, SHRINK, SWAP, MUTATE, FILL, READ, HUGE_REQ, OOM, OUTAGE, THROW, HEAL };
inline const std::vector<OpDesc> kOps = {
  {"construct", 5}, {"destroy", 1}, {"assign", 5}, {"push", 5}, {"insert", 5}, {"erase", 4}, {"resize", 4}, {"reserve", 2},
  {"shrink_to_fit", 1}, {"swap", 3}, {"mutate", 4}, {"fill", 4}, {"read", 3}, {"impossible", 3}, {"fault_alloc_kth", 2},
  {"fault_outage", 1}, {"fault_throw_kth", 2}, {"faults_stop", 0},
};

struct ExecBase
{
    virtual ~ExecBase() = default;
    virtual bool exec(const Trace& t, bool faults, std::vector<char>& threw, Mismatch& mm) = 0;
};

inline std::size_t g_fill_n, g_fill_done;
inline i64 g_fill_v;

template <class T>
class Exec : public ExecBase
{
    using V = sc::stdb_vector<T>;
    static constexpr bool kTrivial = std::is_trivially_copyable_v<T>;
    static constexpr bool kCopy = std::is_copy_constructible_v<T>;
    static constexpr bool kNMove = std::is_nothrow_move_constructible_v<T>;
    static constexpr bool kShift = sc::IsRelocatable<T> || kNMove || !std::is_move_constructible_v<T>;
    static constexpr bool kStr = std::is_same_v<T, Str>;
    static constexpr bool kObj = !kTrivial && !kStr && !std::is_same_v<T, Reloc>;
    static constexpr bool kRes = kObj || std::is_same_v<T, Reloc>;
    static constexpr bool kAssign = std::is_copy_assignable_v<T> || std::is_move_assignable_v<T>;
    static constexpr bool kGiant = std::is_same_v<T, Giant>;

    void* mem[kSlots] = {};
    V* s[kSlots] = {};
    M m[kSlots];
    const Trace* tr = nullptr;
    bool faults = true, armed = false, outage = false, tarmed = false;
    i64 fk = 0, fl = 0, tk = 0, tl = 0;
    std::size_t step_ = 0;
    std::vector<char>* threw = nullptr;
    bool step_failed = false, moved = false;

    [[noreturn]] void bad(const char* kind, const std::string& msg, bool direct = false) { throw Mismatch{kind, msg, direct}; }
    static std::string show(const M& v) {
        std::string r = "[";
        for (std::size_t i = 0; i < v.size() && i < 24; ++i) r += (i ? " " : "") + std::to_string(v[i]);
        return r + (v.size() > 24 ? " ...](" : "](") + std::to_string(v.size()) + ")";
    }
    M actual(const V& v) {
        M r;
        std::size_t n = v.size();
        const T* d = v.data();
        for (std::size_t i = 0; i < n && i < 1000000; ++i) r.push_back(val(d[i]));
        return r;
    }
    void verify(int i, const char* what, bool other, bool direct, bool resync = false) {
        std::size_t sz, cap;
        const T* d;
        bool em;
        {
            CUT c;
            const V& v = *s[i];
            sz = v.size();
            cap = v.capacity();
            d = v.data();
            em = v.empty();
        }
        std::string w = other ? std::string("another vector after ") + what : std::string(what);
        if (cap > 1u << 28 || sz > cap) bad("capacity", w + ": size " + std::to_string(sz) + ", capacity " + std::to_string(cap), direct);
        if (cap && heap::size_of(d) < cap * sizeof(T))
            bad("buffer", w + ": capacity " + std::to_string(cap) + " but the buffer has " + std::to_string(heap::size_of(d) / sizeof(T)) + " elements", direct);
        if (em != (sz == 0)) bad("empty", w + ": empty() does not agree with size()", direct);
        if (resync) {
            if constexpr (kObj)
                for (std::size_t k = 0; k < sz; ++k) reg::check(d + k);
            m[i] = actual(*s[i]);
            for (i64 x : m[i])
                if (x < 0) bad("constructed", w + ": the vector holds something that is not a complete element: " + show(m[i]), direct);
            return;
        }
        bool same = sz == m[i].size();
        for (std::size_t k = 0; same && k < sz; ++k) same = val(d[k]) == m[i][k];
        if (!same) bad(direct ? "changed" : "value", w + ": the vector holds " + show(actual(*s[i])) + ", expected " + show(m[i]), direct);
        if constexpr (kObj)
            for (std::size_t k = 0; k < sz; ++k) reg::check(d + k);
    }
    void verify_all(const char* what, int target, bool direct, bool resync = false) {
        for (int i = 0; i < kSlots; ++i)
            if (s[i]) verify(i, what, i != target, direct, resync && i == target);
        if (!reg::err.empty()) bad("element", std::string(what) + ": " + reg::err, direct);
    }
    // after a step, when no temporary of the harness is alive
    void verify_owners() {
        const char* what = kOps[size_t(tr->ops.empty() || step_ >= tr->ops.size() ? 0 : tr->ops[step_].code)].name;
        u64 n = 0, nn = 0, bufs = 0;
        for (int i = 0; i < kSlots; ++i)
            if (s[i]) {
                n += s[i]->size();
                bufs += s[i]->capacity() != 0;
                if constexpr (std::is_same_v<T, Reloc>)
                    for (std::size_t k = 0; k < s[i]->size(); ++k) nn += s[i]->data()[k].r != nullptr;
            }
        if (kObj && reg::objs.size() != n)
            bad("objects", std::string("after ") + what + " the vectors hold " + std::to_string(n) + " elements but " + std::to_string(reg::objs.size()) +
                             " are alive", step_failed);
        if (kRes && !std::is_same_v<T, Handle> && reg::nres != (kObj ? n : nn))
            bad("resources", std::string("after ") + what + " the elements own " + std::to_string(kObj ? n : nn) + " resources but " +
                               std::to_string(reg::nres) + " are alive", step_failed);
        if (!kStr && heap::live_count() != bufs && (heap::live_count() < bufs || !heap::suspect_leak()))
            bad("leak", std::string("after ") + what + " the vectors have " + std::to_string(bufs) + " buffers but " + std::to_string(heap::live_count()) +
                          " are allocated", step_failed);
    }

    // ---------------------------------------------------------------- running operations
    template <class F>
    Ex guarded(F f) {
        try {
            CUT c;
            f();
            return kNone;
        } catch (const std::bad_alloc&) {
            return kBadAlloc;
        } catch (const std::length_error&) {
            return kLength;
        } catch (const Boom&) {
            return kBoom;
        }
    }
    template <class P, class F>
    bool perform(const char* what, int target, bool impossible, Mode mode, P prep, F f) {
        for (int attempt = 0;; ++attempt) {
            if (attempt == 0 && !faults && threw->at(step_)) {  // control execution: without the failed attempt
                if (threw->at(step_) == 2) return false;
                continue;
            }
            {
                CUT c;
                prep();
            }
            bool on = attempt == 0 && faults && !impossible;
            bool heap_on = on && (armed || outage) && (mode != kQuiet || tr->prop != "C16");
            bool elem_on = on && tarmed && mode != kQuiet;
            if (heap_on) {
                if (outage)
                    heap::plan_cap(0);
                else
                    heap::plan(fk, fl);
            } else
                heap::clear_plan();
            reg::fired = 0;
            if (elem_on) reg::at = tk, reg::len = tl;
            Ex e = guarded(f);
            g_cut = 0;
            u64 n = heap_on ? heap::fired() : 0, b = reg::fired;
            reg::at = -1;
            heap::clear_plan();
            if (heap_on) armed = false;
            if (elem_on) tarmed = false;
            if (n) count("fault.alloc_failed", n);
            if (b) count("fault.constructor_threw", b);
            if (n || b) ::interesting();
            ev(u64(e) * 4096 + n * 64 + b);
            if (impossible) {
                if (e != kBadAlloc && e != kLength) bad("impossible", std::string(what) + " of an impossible size ended with " + exname(e), true);
                step_failed = true;
                verify_all((std::string(what) + " (failed)").c_str(), target, true);
                return false;
            }
            if (e == kNone) {
                if (b) bad("swallowed", std::string(what) + " swallowed the exception of an element", true);
                return true;
            }
            if ((e == kBadAlloc && n == 0) || (e == kBoom && b == 0) || e == kLength)
                bad("spurious", std::string(what) + " ended with " + exname(e) + " although nothing failed");
            step_failed = true;
            count(e == kBoom ? "op.threw_element_exception" : "op.threw_bad_alloc");
            // copies of an empty string may need memory: a bad_alloc is then that of an element
            bool weak = mode == kWeak && (tr->prop == "C16" || kStr);
            threw->at(step_) = weak ? 2 : 1;
            verify_all((std::string(what) + " (failed)").c_str(), target, true, weak);
            if (weak) return false;
            if (attempt) return false;
        }
    }
    template <class FS, class FM, class P>
    bool apply(int t, const char* what, Mode mode, FS fs, FM fm, P prep) {
        i64 rs = -1, rm = -1;
        std::size_t cap = s[t]->capacity();
        M nm = m[t];
        rm = fm(nm);
        bool nonempty = !m[t].empty();
        bool ok = perform(what, t, false, mode, prep, [&] { rs = fs(*s[t]); });
        if (ok) {
            m[t] = nm;
            if (nonempty && s[t]->capacity() != cap) moved = true;
        }
        verify_all(what, t, false);
        if (ok && rs != rm) bad("result", std::string(what) + " returned " + std::to_string(rs) + ", expected " + std::to_string(rm));
        return ok;
    }
    template <class FS, class FM>
    bool apply(int t, const char* what, Mode mode, FS fs, FM fm) {
        return apply(t, what, mode, fs, fm, [] {});
    }
    void destroy(int t) {
        if (!s[t]) return;
        {
            CUT c;
            s[t]->~V();
        }
        ::free(mem[t]);
        mem[t] = nullptr;
        s[t] = nullptr;
        m[t].clear();
    }
    template <class F>
    bool make(int t, const char* what, const M& nm, F f, int src = -1) {
        void* p = ::malloc(sizeof(V));
        ::memset(p, 0xA5, sizeof(V));
        if (!perform(what, t, false, kStrong, [] {}, [&] { f(p); })) {
            ::free(p);
            return false;
        }
        M keep = nm;
        destroy(t);
        mem[t] = p;
        s[t] = static_cast<V*>(p);
        m[t] = keep;
        if (src >= 0) moved_from(src);
        verify_all(what, t, false);
        return true;
    }
    void moved_from(int b) {  // valid but unspecified
        std::size_t n;
        {
            CUT c;
            n = s[b]->size();
        }
        if (n > 1000000) bad("moved-from", "a moved-from vector has size " + std::to_string(n));
        m[b] = actual(*s[b]);
    }

    // ---------------------------------------------------------------- arguments
    std::size_t num(i64 v, int t) {
        std::size_t n = v >= kVast ? std::size_t(v - kVast) % (1 << 17) : std::size_t(u64(v) % 1024);
        if (kGiant) n %= 4;
        if (t >= 0 && m[t].size() > (kGiant ? 10u : v >= kVast ? 300000u : 2500u)) n = std::min<std::size_t>(n, 1);
        return n;
    }
    static M vals(u64 seed, std::size_t n) {
        Rng r(seed);
        u64 range = r.chance(1, 2) ? 6 : 200;
        M v;
        for (std::size_t i = 0; i < n; ++i) v.push_back(i64(r.below(range)));
        return v;
    }
    // n elements in an exact heap buffer
    struct Arr
    {
        T* p;
        std::size_t n;
        explicit Arr(const M& v) : n(v.size()) {
            p = static_cast<T*>(::malloc(n * sizeof(T) + (n == 0)));
            CUT c;
            for (std::size_t i = 0; i < n; ++i) new (p + i) T(mk<T>(v[i]));
        }
        ~Arr() {
            {
                CUT c;
                for (std::size_t i = 0; i < n; ++i) p[i].~T();
            }
            ::free(p);
        }
    };
    struct One
    {
        std::optional<Arr> a;
        explicit One(i64 v) { a.emplace(M{v}); }
        T& operator*() { return *a->p; }
        // an operation that failed may have taken the value
        void renew(i64 v) {
            if (val(*a->p) == v) return;
            a->p->~T();
            new (a->p) T(mk<T>(v));
        }
    };
    template <class C>
    struct Cont  // deque or list of elements
    {
        C c;
        explicit Cont(const M& v) {
            CUT k;
            Harness h2;  // the nodes are not the subject
            for (i64 x : v) {
                g_cut = 1;
                T e = mk<T>(x);
                g_cut = 0;
                c.push_back(e);
            }
        }
    };
    static i64 idx(const V& v, typename V::iterator it) { return i64(it.operator->() - v.data()); }

    void op_new(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 12), src = int(u64(o.a[4]) % kSlots);
        std::size_t n = num(o.a[2], -1);
        u64 sd = u64(o.a[3]);
        const char* w = "construction";
        switch (v) {
            case 0: make(t, w, M(), [&](void* p) { new (p) V(); }); break;
            case 1: make(t, w, M(n, 0), [&](void* p) { new (p) V(n); }); break;
            case 2:
                if constexpr (kCopy) {
                    i64 x = i64(sd % 200);
                    One a(x);
                    make(t, w, M(n, x), [&](void* p) { new (p) V(n, static_cast<const T&>(*a)); });
                }
                break;
            case 3:
                if constexpr (kCopy) {
                    M c = vals(sd, n);
                    Arr a(c);
                    make(t, w, c, [&](void* p) { new (p) V(static_cast<const T*>(a.p), static_cast<const T*>(a.p) + n); });
                }
                break;
            case 4:
                if constexpr (kCopy && kAssign && !kGiant) {
                    M c = vals(sd, n);
                    Cont<std::deque<T>> d(c);
                    make(t, "construction from deque iterators", c, [&](void* p) { new (p) V(d.c.begin(), d.c.end()); });
                }
                break;
            case 5:
                if constexpr (kCopy && !kGiant) {
                    i64 x = i64(sd % 50);
                    One a(x), b(x + 1);
                    make(t, w, M{x, x + 1, x}, [&](void* p) { new (p) V(std::initializer_list<T>{*a, *b, *a}); });
                }
                break;
            case 6:
            case 7:
                if constexpr (kCopy)
                    if (s[src]) {
                        const V& x = *s[src];
                        make(t, "copy construction", m[src], [&](void* p) { new (p) V(x); });
                    }
                break;
            case 8:
                if (s[src] && src != t) {
                    V& x = *s[src];
                    make(t, "move construction", m[src], [&](void* p) { new (p) V(std::move(x)); }, src);
                }
                break;
            case 9:
                if constexpr (kCopy)
                    if (s[src]) {
                        const V& x = *s[src];
                        std::size_t a = sd % (m[src].size() + 1), b = a + sd / 64 % (m[src].size() - a + 1);
                        make(t, "construction from a part", M(m[src].begin() + i64(a), m[src].begin() + i64(b)),
                             [&](void* p) { new (p) V(x.begin() + i64(a), x.begin() + i64(b)); });
                    }
                break;
            case 10:
                if constexpr (kCopy) {
                    M c = vals(sd, n);
                    Arr a(c);
                    make(t, "construction from reverse iterators", M(c.rbegin(), c.rend()), [&](void* p) {
                        new (p) V(std::make_reverse_iterator(static_cast<const T*>(a.p) + n), std::make_reverse_iterator(static_cast<const T*>(a.p)));
                    });
                }
                break;
            case 11:
                if constexpr (std::is_arithmetic_v<T>) {
                    M c = vals(sd, n);
                    make(t, "construction from other numbers", c, [&](void* p) { new (p) V(c.begin(), c.end()); });
                }
                break;
        }
    }
    void op_assign(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 12), src = int(u64(o.a[4]) % kSlots);
        if (!s[t]) return;
        std::size_t n = num(o.a[2], -1);
        u64 sd = u64(o.a[3]);
        const char* w = "assign";
        auto to = [&](M c) { return [c](M& x) { x = c; return i64(0); }; };
        switch (v) {
            case 0:
            case 1:
                if constexpr (kCopy)
                    if (s[src]) {
                        const V& x = *s[src];
                        M c = m[src];
                        apply(t, "copy assignment", kWeak, [&](V& y) { y = x; return 0; }, to(c));
                    }
                break;
            case 2:
                if (s[src]) {
                    V& x = *s[src];
                    M c = m[src];
                    V* z = s[t];
                    if (perform("move assignment", t, false, kStrong, [] {}, [&] { *z = std::move(x); })) {
                        m[t] = c;
                        if (src != t) moved_from(src);
                    }
                    verify_all("move assignment", t, false);
                }
                break;
            case 3:
                if constexpr (kCopy) {
                    i64 x = i64(sd % 200);
                    One a(x);
                    apply(t, "assign(n, value)", kWeak, [&](V& y) { y.assign(n, static_cast<const T&>(*a)); return 0; }, to(M(n, x)));
                }
                break;
            case 4:
            case 5:
                if constexpr (kCopy)
                    if (s[src] && !m[src].empty()) {
                        std::size_t i = sd % m[src].size();
                        const V& x = *s[src];
                        apply(t, "assign(n, element)", kWeak, [&](V& y) { y.assign(n, x[i]); return 0; }, to(M(n, m[src][i])));
                    }
                break;
            case 6:
                if constexpr (kCopy) {
                    M c = vals(sd, n);
                    Arr a(c);
                    apply(t, w, kWeak, [&](V& y) { y.assign(static_cast<const T*>(a.p), static_cast<const T*>(a.p) + n); return 0; }, to(c));
                }
                break;
            case 7:
                if constexpr (kCopy && !kGiant) {
                    i64 x = i64(sd % 50);
                    One a(x), b(x + 1);
                    apply(t, w, kWeak, [&](V& y) { y.assign({*a, *b, *b, *a}); return 0; }, to(M{x, x + 1, x + 1, x}));
                }
                break;
            case 8:
                if constexpr (kCopy && kAssign && !kGiant) {
                    M c = vals(sd, n);
                    Cont<std::list<T>> d(c);
                    apply(t, "assign from list iterators", kWeak, [&](V& y) { y.assign(d.c.begin(), d.c.end()); return 0; }, to(c));
                }
                break;
            case 9:
                if constexpr (kCopy && kAssign && !kGiant) {
                    M c = vals(sd, n);
                    Cont<std::deque<T>> d(c);
                    apply(t, "assign from deque iterators", kWeak, [&](V& y) { y.assign(d.c.begin(), d.c.end()); return 0; }, to(c));
                }
                break;
            case 10:
                if constexpr (kCopy)
                    if (s[src] && src != t) {
                        const V& x = *s[src];
                        std::size_t a = sd % (m[src].size() + 1), b = a + sd / 64 % (m[src].size() - a + 1);
                        apply(t, "assign a part of another vector", kWeak, [&](V& y) { y.assign(x.begin() + i64(a), x.begin() + i64(b)); return 0; },
                              to(M(m[src].begin() + i64(a), m[src].begin() + i64(b))));
                    }
                break;
            case 11: apply(t, "self move assignment", kQuiet, [&](V& y) { V& z = y; y = std::move(z); return 0; }, [](M&) { return 0; }); break;
        }
    }
    void op_push(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 8);
        if (!s[t]) return;
        std::size_t times = 1 + num(o.a[2], t);
        u64 sd = u64(o.a[3]);
        int src = int(u64(o.a[4]) % kSlots);
        if (m[t].size() > (kGiant ? 10u : 2500u)) times = 1;
        for (std::size_t k = 0; k < times; ++k) {
            i64 x = i64(mix2(sd, k) % (sd % 3 ? 200 : 6));
            auto mod = [&](M& y) { y.push_back(x); return i64(y.size() - 1); };
            auto mod0 = [&](M& y) { y.push_back(x); return i64(0); };
            bool room = s[t]->size() < s[t]->capacity();
            switch (v) {
                case 0:
                    if constexpr (kCopy) {
                        One a(x);
                        if (room && sd % 5 == 0)
                            apply(t, "push_back<Unsafe>", kStrong, [&](V& y) { y.template push_back<sc::Safety::Unsafe>(static_cast<const T&>(*a)); return 0; }, mod0);
                        else
                            apply(t, "push_back", kStrong, [&](V& y) { y.push_back(static_cast<const T&>(*a)); return 0; }, mod0);
                    }
                    break;
                case 1:
                case 2:
                    if constexpr (kNMove) {
                        One a(x);
                        if (room && sd % 5 == 0)
                            apply(t, "push_back<Unsafe>(&&)", kStrong, [&](V& y) { y.template push_back<sc::Safety::Unsafe>(std::move(*a)); return 0; }, mod0,
                                  [&] { a.renew(x); });
                        else
                            apply(t, "push_back(&&)", kStrong, [&](V& y) { y.push_back(std::move(*a)); return 0; }, mod0, [&] { a.renew(x); });
                    }
                    break;
                case 3:
                case 4:
                    if constexpr (!kStr) {
                        if (room && sd % 5 == 0)
                            apply(t, "emplace_back<Unsafe>", kStrong, [&](V& y) { return idx(y, y.template emplace_back<sc::Safety::Unsafe>(x)); }, mod);
                        else
                            apply(t, "emplace_back", kStrong, [&](V& y) { return idx(y, y.emplace_back(x)); }, mod);
                    } else {
                        std::string c = x ? text(x) : std::string();
                        apply(t, "emplace_back", kStrong, [&](V& y) { return idx(y, y.emplace_back(c.data(), c.size())); }, mod);
                    }
                    break;
                case 5:
                    if constexpr (kCopy)
                        if (s[src] && !m[src].empty()) {
                            std::size_t i = mix2(sd, k) % m[src].size();
                            x = m[src][i];
                            const V& z = *s[src];
                            apply(t, "push_back(element)", kStrong, [&](V& y) { y.push_back(z[i]); return 0; }, mod0);
                        }
                    break;
                case 6:
                    if constexpr (kCopy)
                        if (s[src] && !m[src].empty()) {
                            std::size_t i = mix2(sd, k) % m[src].size();
                            x = m[src][i];
                            const V& z = *s[src];
                            apply(t, "emplace_back(element)", kStrong, [&](V& y) { return idx(y, y.emplace_back(z[i])); }, mod);
                        }
                    break;
                case 7: apply(t, "emplace_back()", kStrong, [&](V& y) { return idx(y, y.emplace_back()); }, [&](M& y) { y.push_back(trivial_default()); return i64(y.size() - 1); }); break;
            }
        }
    }
    static i64 trivial_default() { return 0; }  // emplace_back() value-initializes
    void op_insert(const Op& o) {
        if constexpr (kShift) {
            int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 14), src = int(u64(o.a[4]) % kSlots);
            if (!s[t]) return;
            std::size_t n = num(o.a[2], t);
            u64 sd = u64(o.a[3]);
            std::size_t sz = m[t].size(), pos = sd % 4 == 0 ? sz : sd / 8 % (sz + 1);
            if (pos < sz) moved = true;
            i64 x = i64(sd / 3 % 200);
            bool room = s[t]->capacity() - s[t]->size() >= std::max<std::size_t>(n, 1);
            auto cit = [pos](V& y) { return y.cbegin() + i64(pos); };
            auto one = [&](M& y) { y.insert(y.begin() + i64(pos), x); return i64(pos); };
            switch (v) {
                case 0:
                    if constexpr (kCopy) {
                        One a(x);
                        if (room && sd % 5 == 0)
                            apply(t, "insert<Unsafe>", kWeak, [&](V& y) { return idx(y, y.template insert<sc::Safety::Unsafe>(cit(y), static_cast<const T&>(*a))); }, one);
                        else
                            apply(t, "insert", kWeak, [&](V& y) { return idx(y, y.insert(cit(y), static_cast<const T&>(*a))); }, one);
                    }
                    break;
                case 1:
                case 2:
                    if constexpr (kNMove) {
                        One a(x);
                        if (room && sd % 5 == 0)
                            apply(t, "insert<Unsafe>(&&)", kWeak, [&](V& y) { return idx(y, y.template insert<sc::Safety::Unsafe>(cit(y), std::move(*a))); }, one,
                                  [&] { a.renew(x); });
                        else
                            apply(t, "insert(&&)", kWeak, [&](V& y) { return idx(y, y.insert(cit(y), std::move(*a))); }, one, [&] { a.renew(x); });
                    }
                    break;
                case 3:
                case 4:
                    if constexpr (kCopy) {
                        One a(x);
                        apply(t, "insert(n)", kWeak,
                              [&](V& y) {
                                  return room && sd % 5 == 0 ? idx(y, y.template insert<sc::Safety::Unsafe>(cit(y), n, static_cast<const T&>(*a)))
                                                             : idx(y, y.insert(cit(y), n, static_cast<const T&>(*a)));
                              },
                              [&](M& y) { y.insert(y.begin() + i64(pos), n, x); return i64(pos); });
                    }
                    break;
                case 5:
                case 6:
                    if constexpr (kCopy) {
                        M c = vals(sd, n);
                        Arr a(c);
                        apply(t, "insert(range)", kWeak,
                              [&](V& y) {
                                  const T *f = a.p, *l = a.p + n;
                                  return room && sd % 5 == 0 ? idx(y, y.template insert<sc::Safety::Unsafe>(cit(y), f, l)) : idx(y, y.insert(cit(y), f, l));
                              },
                              [&](M& y) { y.insert(y.begin() + i64(pos), c.begin(), c.end()); return i64(pos); });
                    }
                    break;
                case 7:
                    if constexpr (kCopy && !kGiant) {
                        One a(x), b(x + 1);
                        apply(t, "insert(list)", kWeak, [&](V& y) { return idx(y, y.insert(cit(y), {*a, *b, *b})); },
                              [&](M& y) { y.insert(y.begin() + i64(pos), {x, x + 1, x + 1}); return i64(pos); });
                    }
                    break;
                case 8:
                case 9:
                    if constexpr (kCopy)
                        if (s[src] && !m[src].empty()) {
                            std::size_t i = sd / 64 % m[src].size();
                            x = m[src][i];
                            const V& z = *s[src];
                            if (v == 8)
                                apply(t, "insert(element)", kWeak, [&](V& y) { return idx(y, y.insert(cit(y), z[i])); }, one);
                            else
                                apply(t, "insert(n, element)", kWeak, [&](V& y) { return idx(y, y.insert(cit(y), n, z[i])); },
                                      [&](M& y) { y.insert(y.begin() + i64(pos), n, x); return i64(pos); });
                        }
                    break;
                case 10:
                    if constexpr (kCopy && kAssign && !kGiant) {
                        M c = vals(sd, n);
                        Cont<std::deque<T>> d(c);
                        apply(t, "insert from deque iterators", kWeak, [&](V& y) { return idx(y, y.insert(cit(y), d.c.begin(), d.c.end())); },
                              [&](M& y) { y.insert(y.begin() + i64(pos), c.begin(), c.end()); return i64(pos); });
                    }
                    break;
                case 11:
                    if constexpr (!kStr)
                        apply(t, "emplace", kWeak, [&](V& y) { return idx(y, y.emplace(y.begin() + i64(pos), x)); }, one);
                    break;
                case 12:
                    if constexpr (!kStr)
                        apply(t, "emplace at an index", kWeak, [&](V& y) { return idx(y, y.emplace(pos, x)); }, one);
                    break;
                case 13:
                    if constexpr (kCopy)
                        if (s[src] && !m[src].empty()) {
                            std::size_t i = sd / 64 % m[src].size();
                            x = m[src][i];
                            const V& z = *s[src];
                            if (sd % 3)
                                apply(t, "emplace(element)", kWeak, [&](V& y) { return idx(y, y.emplace(y.begin() + i64(pos), z[i])); }, one);
                            else
                                apply(t, "emplace(element) at an index", kWeak, [&](V& y) { return idx(y, y.emplace(pos, z[i])); }, one);
                        }
                    break;
            }
        }
    }
    void op_erase(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 12);
        if (!s[t]) return;
        std::size_t n = num(o.a[2], -1);
        u64 sd = u64(o.a[3]);
        std::size_t sz = m[t].size();
        if (v == 9) {
            apply(t, "clear", kQuiet, [&](V& y) { y.clear(); return 0; }, [](M& y) { y.clear(); return 0; });
            return;
        }
        if (v == 8) {
            if (!sz) return;
            apply(t, "pop_back", kQuiet, [&](V& y) { y.pop_back(); return 0; }, [](M& y) { y.pop_back(); return 0; });
            return;
        }
        if constexpr (kShift) {
            std::size_t pos = sz ? sd % sz : 0;
            std::size_t a = sd % (sz + 1), b = a + (n ? n % (sz - a + 1) : 0);
            i64 x = sz && sd % 4 ? m[t][sd / 8 % sz] : i64(sd % 200);
            moved = true;
            auto del = [&](M& y) { y.erase(y.begin() + i64(pos)); return i64(pos); };
            auto range = [&](M& y) { y.erase(y.begin() + i64(a), y.begin() + i64(b)); return i64(0); };
            auto rem = [&](M& y) { return i64(std::erase(y, x)); };
            auto remif = [&](M& y) { return i64(std::erase_if(y, [&](i64 e) { return e % 3 == i64(sd % 3); })); };
            auto pred = [&](const T& e) {
                reg::point();  // a predicate may throw too
                Harness h;
                return val(e) % 3 == i64(sd % 3);
            };
            switch (v) {
                case 0:
                    if (sz) apply(t, "erase", kWeak, [&](V& y) { return idx(y, y.erase(y.begin() + i64(pos))); }, del);
                    break;
                case 1:
                    if (sz) apply(t, "erase", kWeak, [&](V& y) { return idx(y, y.erase(y.cbegin() + i64(pos))); }, del);
                    break;
                // (the returned iterator is not compared: the test suite fixes that it is the second argument)
                case 2: apply(t, "erase(range)", kWeak, [&](V& y) { (void)y.erase(y.begin() + i64(a), y.begin() + i64(b)); return 0; }, range); break;
                case 3: apply(t, "erase(range)", kWeak, [&](V& y) { (void)y.erase(y.cbegin() + i64(a), y.cbegin() + i64(b)); return 0; }, range); break;
                case 4: {
                    One e(x);
                    apply(t, "erase(value)", kWeak, [&](V& y) { return i64(y.erase(static_cast<const T&>(*e))); }, rem);
                    break;
                }
                case 5: apply(t, "erase_if", kWeak, [&](V& y) { return i64(y.erase_if(pred)); }, remif); break;
                case 6: {
                    One e(x);
                    apply(t, "std::erase", kWeak, [&](V& y) { return i64(std::erase(y, static_cast<const T&>(*e))); }, rem);
                    break;
                }
                // every element that equals one of the vector itself
                case 10:
                    if (sz) {
                        x = m[t][pos];
                        apply(t, "erase(own element)", kWeak, [&](V& y) { return i64(y.erase(static_cast<const T&>(y[pos]))); }, rem);
                    }
                    break;
                case 11:
                    if (sz) {
                        x = m[t][pos];
                        apply(t, "std::erase(own element)", kWeak, [&](V& y) { return i64(std::erase(y, static_cast<const T&>(y[pos]))); }, rem);
                    }
                    break;
                case 7: apply(t, "std::erase_if", kWeak, [&](V& y) { return i64(std::erase_if(y, pred)); }, remif); break;
            }
        }
    }
    void op_resize(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 4);
        if (!s[t]) return;
        std::size_t n = num(o.a[2], -1);
        u64 sd = u64(o.a[3]);
        if (sd % 3 == 0) n = std::min<std::size_t>(m[t].size() + n % 9, kGiant ? 10 : 3000);
        i64 x = i64(sd % 200);
        switch (v) {
            case 0: apply(t, "resize", kStrong, [&](V& y) { y.resize(n); return 0; }, [&](M& y) { y.resize(n, 0); return 0; }); break;
            case 1:
                if constexpr (kCopy) {
                    One a(x);
                    apply(t, "resize(n, value)", kStrong, [&](V& y) { y.resize(n, *a); return 0; }, [&](M& y) { y.resize(n, x); return 0; });
                }
                break;
            case 2:
                if constexpr (kCopy)
                    if (!m[t].empty()) {
                        std::size_t i = sd / 16 % m[t].size();
                        if (n < m[t].size()) n = m[t].size() + n % 40;
                        x = m[t][i];
                        apply(t, "resize(n, element)", kStrong, [&](V& y) { y.resize(n, y[i]); return 0; }, [&](M& y) { y.resize(n, x); return 0; });
                    }
                break;
            case 3:
                if constexpr (kTrivial) {
                    M c = vals(sd, n);
                    for (std::size_t i = 0; i < std::min(n, m[t].size()); ++i) c[i] = m[t][i];
                    std::size_t old = m[t].size();
                    apply(t, "resize<Unsafe>", kStrong,
                          [&](V& y) {
                              y.template resize<sc::Safety::Unsafe>(n);
                              for (std::size_t i = old; i < n && i < y.size(); ++i) y[i] = mk<T>(c[i]);
                              return 0;
                          },
                          [&](M& y) { y = c; return 0; });
                }
                break;
        }
    }
    static std::size_t filler(T* p) {
        if (!p) return g_fill_n;
        if constexpr (kTrivial)
            for (std::size_t i = 0; i < g_fill_done; ++i) p[i] = mk<T>((g_fill_v + i64(i)) % 200);
        return g_fill_done;
    }
    void op_fill(const Op& o) {
        if constexpr (kTrivial) {
            int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 4);
            if (!s[t]) return;
            std::size_t n = num(o.a[2], t), sz = m[t].size();
            u64 sd = u64(o.a[3]);
            bool room = s[t]->capacity() - sz >= n;
            g_fill_n = n;
            g_fill_done = sd % 4 == 0 ? sd / 4 % (n + 1) : n;
            g_fill_v = i64(sd % 200);
            auto mod = [&](std::size_t k) { return [&, k](M& y) { for (std::size_t i = 0; i < k; ++i) y.push_back((g_fill_v + i64(i)) % 200); return i64(0); }; };
            if (v == 1 && !room) v = 0;
            if (v == 3 && !room) v = 2;
            switch (v) {
                case 0: apply(t, "fill", kStrong, [&](V& y) { y.fill(filler); return 0; }, mod(g_fill_done)); break;
                case 1: apply(t, "fill<Unsafe>", kStrong, [&](V& y) { y.template fill<sc::Safety::Unsafe>(filler); return 0; }, mod(g_fill_done)); break;
                default:
                    g_fill_done = n;
                    apply(t, v == 2 ? "get_writebuffer" : "get_writebuffer<Unsafe>", kStrong,
                          [&](V& y) {
                              std::span<T> b = v == 2 ? y.get_writebuffer(n) : y.template get_writebuffer<sc::Safety::Unsafe>(n);
                              if (b.size() != n || b.data() != y.data() + sz) return i64(1);
                              filler(b.data());
                              return i64(0);
                          },
                          mod(n));
                    break;
            }
        }
    }
    void op_mutate(const Op& o) {
        if constexpr (kAssign && !kGiant) {
            int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 8);
            if (!s[t] || m[t].empty()) return;
            u64 sd = u64(o.a[2]);
            std::size_t i = sd % m[t].size();
            if (v == 2) i = 0;
            if (v == 3) i = m[t].size() - 1;
            i64 x = i64(sd / 7 % 200);
            One a(x);
            auto put = [&](T& e) { e = std::move(*a); return i64(0); };
            apply(t, "element write", kQuiet,
                  [&](V& y) {
                      switch (v) {
                          case 0: return put(y[i]);
                          case 1: return put(y.at(i));
                          case 2: return put(y.front());
                          case 3: return put(y.back());
                          case 4: return put(*(y.begin() + i64(i)));
                          case 5: return put(*(y.rbegin() + i64(y.size() - 1 - i)));
                          case 6: return put(y.data()[i]);
                          default: return put((y.end() - 1 - i64(y.size() - 1 - i))[0]);
                      }
                  },
                  [&](M& y) { y[i] = x; return i64(0); }, [&] { a.renew(x); });
        }
    }
    void op_read(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), u = int(u64(o.a[1]) % kSlots);
        if (!s[t]) return;
        u64 sd = u64(o.a[2]);
        const V& v = *s[t];
        const M& x = m[t];
        bool okay = true;
        std::size_t n = x.size(), i = n ? sd % n : 0;
        {
            std::size_t k = 0;
            for (auto it = v.begin(); it != v.end(); ++it, ++k) okay = okay && k < n && val(*it) == x[k];
            okay = okay && k == n;
            k = 0;
            for (auto it = v.rbegin(); it != v.rend(); ++it, ++k) okay = okay && k < n && val(*it) == x[n - 1 - k];
            okay = okay && k == n && i64(v.cend() - v.cbegin()) == i64(n) && v.max_size() >= n;
            if (n)
                okay = okay && val(v.front()) == x.front() && val(v.back()) == x.back() && val(v[i]) == x[i] && val(v.at(i)) == x[i] && val(v.cbegin()[i]) == x[i] &&
                       val(*(v.begin() + i64(i))) == x[i] && val(s[t]->front()) == x.front() && val(s[t]->back()) == x.back();
            if (n) {
                // the iterators are random access iterators
                auto b = v.begin(), e = v.end();
                const auto& first = b;
                auto it = e - i64(n - i);
                okay = okay && val(*it) == x[i] && it - b == i64(i) && e - it == i64(n - i) && val(e[-i64(n - i)]) == x[i] && val(*(i64(i) + b)) == x[i];
                okay = okay && (it == b) == (i == 0) && (b < it) == (i > 0) && it < e && it <= e && e > it && it != e && it >= first;
                it += i64(n - i);
                okay = okay && it == e;
                it -= i64(n - i);
                auto old = it++;
                okay = okay && val(*old) == x[i] && it - old == 1 && (i + 1 < n ? val(*it) == x[i + 1] : it == e);
                old = it--;
                okay = okay && val(*it) == x[i] && old - it == 1;
                typename V::const_iterator conv = s[t]->begin() + i64(i);
                okay = okay && conv == it && conv.operator->() == v.data() + i && val(v.rbegin()[i64(i)]) == x[n - 1 - i];
            }
        }
        if (!okay) bad("read", "reading " + show(x) + " gives something else");
        if (s[u]) {
            bool eq;
            std::strong_ordering c = std::strong_ordering::equal;
            {
                CUT k;
                eq = v == *s[u];
                if constexpr (!kStr) c = v <=> *s[u];
            }
            bool wrong = eq != (x == m[u]);
            if constexpr (!kStr) wrong = wrong || c != (x <=> m[u]);
            if (wrong) bad("compare", "comparing " + show(x) + " and " + show(m[u]) + " gives something else");
        }
    }
    void op_huge(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots), v = int(u64(o.a[1]) % 9);
        if (!s[t]) return;
        const u64 e = sizeof(T), sz = m[t].size(), cap = s[t]->capacity(), mx = (~0ULL >> 1) / e;
        const u64 sizes[] = {~0ULL, ~0ULL - sz, ~0ULL - sz + 1, ~0ULL / e, ~0ULL / e + 1, ~0ULL / e + 2, mx, mx + 1, mx - sz, mx - sz + 1, ~0ULL / 2, (1ULL << 63) / e + 7, (1ULL << 60), (1ULL << 62) + 1, ~0ULL - cap + 1, ~0ULL / e + 1 + cap};
        u64 n = sizes[u64(o.a[2]) % 16];
        if (n < (1ULL << 45) / e) return;
        count("fault.impossible_size");
        ::interesting();
        One* a = nullptr;
        if constexpr (kCopy) a = new One(5);
        void* p = ::malloc(sizeof(V));
        std::size_t mid = sz / 2;
        const char* w = "an operation";
        auto f = [&] {
            V& y = *s[t];
            switch (v) {
                case 0: y.reserve(n); break;
                case 1: y.resize(n); break;
                case 2: new (p) V(n); break;
                case 3:
                    if constexpr (kCopy) y.resize(n, **a);
                    else y.resize(n);
                    break;
                case 4:
                    if constexpr (kCopy) y.assign(n, **a);
                    else y.resize(n);
                    break;
                case 5:
                    if constexpr (kCopy && kShift) (void)y.insert(y.cbegin() + i64(mid), n, **a);
                    else y.resize(n);
                    break;
                case 6:
                    if constexpr (kCopy) new (p) V(n, **a);
                    else y.resize(n);
                    break;
                case 7:
                    if constexpr (kTrivial) (void)y.get_writebuffer(n);
                    else y.reserve(n);
                    break;
                case 8:
                    if constexpr (kTrivial) {
                        g_fill_n = n;
                        g_fill_done = 0;
                        y.fill(filler);
                    } else
                        y.reserve(n);
                    break;
            }
        };
        try {
            perform(w, t, true, kQuiet, [] {}, f);
        } catch (...) {
            delete a;
            ::free(p);
            throw;
        }
        delete a;
        ::free(p);
        verify_all(w, t, true);
    }
    void step(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots);
        switch (o.code) {
            case NEW: op_new(o); break;
            case DEL:
                destroy(t);
                verify_all("destruction", -1, false);
                break;
            case ASSIGN: op_assign(o); break;
            case PUSH: op_push(o); break;
            case INSERT: op_insert(o); break;
            case ERASE: op_erase(o); break;
            case RESIZE: op_resize(o); break;
            case RESERVE:
                if (s[t]) {
                    std::size_t n = num(o.a[1], t);
                    apply(t, "reserve", kWeak, [&](V& y) { y.reserve(n); return i64(y.capacity() >= n); }, [](M&) { return i64(1); });
                }
                break;
            case SHRINK:
                if (s[t]) apply(t, "shrink_to_fit", kWeak, [&](V& y) { y.shrink_to_fit(); return 0; }, [](M&) { return 0; });
                break;
            case SWAP: {
                int b = int(u64(o.a[1]) % kSlots);
                if (!s[t] || !s[b]) break;
                if (perform("swap", t, false, kQuiet, [] {}, [&] {
                        if (o.a[2] % 2)
                            s[t]->swap(*s[b]);
                        else
                            std::swap(*s[t], *s[b]);
                    }) &&
                    t != b)
                    std::swap(m[t], m[b]);
                verify_all("swap", t, false);
                break;
            }
            case MUTATE: op_mutate(o); break;
            case FILL: op_fill(o); break;
            case READ: op_read(o); break;
            case HUGE_REQ: op_huge(o); break;
            case OOM:
                armed = true;
                fk = o.a[0];
                fl = o.a[1];
                break;
            case OUTAGE: outage = o.a[0] != 0; break;
            case THROW:
                tarmed = true;
                tk = o.a[0];
                tl = o.a[1];
                break;
            case HEAL: armed = outage = tarmed = false; break;
        }
    }
    void note(int code) {
        u64 h = mix2(u64(code), u64(tr->c("elem")));
        for (int k = 0; k < kSlots; ++k) {
            u64 c = 0;
            if (s[k]) {
                std::size_t n = m[k].size(), cap = s[k]->capacity();
                int lg = 0;
                while (n >> lg) ++lg;
                c = 1 + u64(lg) * 8 + (cap == 0 ? 0 : cap == n ? 1 : cap == n + 1 ? 2 : cap < 2 * n ? 3 : 4);
            }
            h = mix2(h, c);
        }
        note_state(h);
    }

   public:
    bool exec(const Trace& t, bool fl_, std::vector<char>& th, Mismatch& mm) override {
        tr = &t;
        faults = fl_;
        threw = &th;
        reg::reset();
        bool okay = true;
        try {
            for (std::size_t i = 0; i < t.ops.size(); ++i) {
                step_ = i;
                step_failed = false;
                g_slot->step.store(i);
                const Op& o = t.ops[i];
                logf("%3zu %s %lld %lld %lld %lld %lld\n", i, kOps[size_t(o.code)].name, (long long)o.a[0], (long long)o.a[1], (long long)o.a[2],
                     (long long)o.a[3], (long long)o.a[4]);
                ev(u64(o.code) + 1);
                step(o);
                verify_owners();
                for (int k = 0; k < kSlots; ++k)
                    if (s[k]) {
                        ev(hash_bytes(m[k].data(), m[k].size() * sizeof(i64)));
                        ev(s[k]->capacity());
                        if (g_verbose) logf("      v%d = %s cap %zu\n", k, show(m[k]).c_str(), s[k]->capacity());
                    }
                note(o.code);
            }
            outage = armed = tarmed = false;
            step_ = t.ops.size();
            step_failed = false;
            for (int k = 0; k < kSlots; ++k)  // usable to the end
                if (s[k]) apply(k, "emplace_back()", kQuiet, [&](V& y) { (void)y.emplace_back(); return 0; }, [&](M& y) { y.push_back(0); return 0; });
            u64 order = mix64(t.seed);
            for (int i = 0; i < kSlots; ++i) {
                destroy(int((order + u64(i)) % kSlots));
                verify_all("destruction", -1, false);
                verify_owners();
            }
            if (kRes && reg::nres) bad("resources", std::to_string(reg::nres) + " resources are left when no vector is left");
        } catch (const Mismatch& e) {
            g_cut = 0;
            mm = e;
            okay = false;
        }
        if (okay && faults && moved && (t.prop == "C14" || t.prop == "C17")) ::interesting();
        return okay;
    }
};
}  // namespace vw
