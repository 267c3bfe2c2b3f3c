// Simulated world of vectors: generation of histories and judgement; the operations are in vector_impl.hpp
#include "vector_impl.hpp"
namespace vw {
template <int N>
std::unique_ptr<ExecBase> make_elem();  // vector_elem.cc
}
namespace {
class VectorWorld : public World
{
    template <int... N>
    static std::unique_ptr<ExecBase> pick(int e, std::integer_sequence<int, N...>) {
        std::unique_ptr<ExecBase> r;
        ((e == N ? void(r = make_elem<N>()) : void()), ...);
        return r;
    }
    static std::unique_ptr<ExecBase> executor(i64 elem) { return pick(int(u64(elem) % kTypes), std::make_integer_sequence<int, kTypes>()); }

   public:
    const char* name() const override { return "vector"; }
    const char* components() const override {
        return "real: container/stdb_vector.hpp, string/string.hpp (as an element); simulated: malloc/free, element types; reference: std::vector";
    }
    const std::vector<OpDesc>& ops() const override { return kOps; }

    void generate(Rng& r, const std::string& prop, Trace& t) override {
        int elem;
        if (prop == "C17")
            elem = r.pick({4, 4, 5, 6, 7, 7, 8, 9, 10});
        else if (prop == "C16")
            elem = r.pick({4, 5, 6, 6, 7, 7, 8, 8, 10});
        else
            elem = r.chance(1, 80) ? 11 : r.chance(1, 5) ? 12 + int(r.below(3)) : int(r.below(11));
        t.cfg["elem"] = elem;
        bool giant = elem == 11, trivial = elem < 4 || elem >= 11;
        bool oom = prop == "C15" || (prop == "C17" && r.chance(1, 2)) || (prop == "C16" && elem == 10);
        bool thr = prop == "C16" && elem != 10;
        int ns = 1 + int(r.below(kSlots));
        std::vector<u32> w(kOps.size(), 0);
        w[NEW] = 6;
        w[DEL] = 2;
        w[ASSIGN] = 10;
        w[PUSH] = 10;
        w[INSERT] = 14;
        w[ERASE] = prop == "C16" ? 8 : 12;
        w[RESIZE] = 6;
        w[RESERVE] = 3;
        w[SHRINK] = 3;
        w[SWAP] = 2;
        w[MUTATE] = 4;
        w[FILL] = trivial ? 8 : 0;
        w[READ] = prop == "C14" ? 3 : 0;
        if (prop == "C15") w[HUGE_REQ] = 4;
        if (oom) w[OOM] = prop == "C17" ? 12 : 40, w[HEAL] = 2, w[OUTAGE] = r.chance(1, 6) ? 3 : 0;
        if (thr) w[THROW] = 40;
        for (auto& x : w)
            if (x && r.chance(1, 10)) x = 0;  // swarm
        w[NEW] += 2;
        int n = giant ? 4 + int(r.below(8)) : 6 + int(r.below(r.chance(1, 4) ? 90 : 30));
        bool small = r.chance(2, 3);
        bool vast = !giant && r.chance(1, 100);
        if (vast) n = 3 + int(r.below(8));
        auto add = [&](int code, std::initializer_list<i64> a) {
            Op o;
            o.code = code;
            int i = 0;
            for (i64 x : a) o.a[i++] = x;
            t.ops.push_back(o);
        };
        auto ln = [&]() -> i64 {
            if (giant) return r.range(0, 3);
            if (vast && r.chance(1, 2)) {
                if (!trivial) return kVast + r.range(500, 6000);
                return kVast + (r.chance(1, 2) ? r.pick<i64>({1024, 2048, 4096, 8192, 16384, 32768, 65536}) + r.range(-9, 9) : r.range(1000, 70000));
            }
            switch (r.below(small ? 6 : 9)) {
                case 0: return 0;
                case 1: return r.range(0, 3);
                case 2: return r.range(1, 8);
                case 3: return r.range(0, 20);
                case 4: return r.range(0, 40);
                case 5: return r.range(0, 5);
                case 6: return r.range(14, 18);
                case 7: return r.range(0, 100);
                default: return r.range(60, 300);
            }
        };
        auto sl = [&] { return i64(r.below(u64(ns))); };
        auto sd = [&] { return i64(r.below(1000000)); };
        add(NEW, {0, i64(r.below(12)), ln(), sd(), 0});
        for (int i = 1; i < ns; ++i)
            if (r.chance(2, 3)) add(NEW, {i64(i), i64(r.below(12)), ln(), sd(), sl()});
        bool pending = false;
        for (int i = 0; i < n; ++i) {
            int code = int(r.weighted(w));
            if (pending && (code == OOM || code == THROW || code == READ || code == DEL || code == OUTAGE || code == HEAL || code == HUGE_REQ || code == MUTATE || code == SWAP ))
                code = r.pick({int(ASSIGN), int(PUSH), int(INSERT), int(RESIZE), int(NEW), int(RESERVE), int(SHRINK), int(INSERT), int(ASSIGN), thr ? int(ERASE) : int(INSERT), trivial ? int(FILL) : int(PUSH)});
            pending = false;
            switch (code) {
                case NEW: add(NEW, {sl(), i64(r.below(12)), ln(), sd(), sl()}); break;
                case DEL: add(DEL, {sl()}); break;
                case ASSIGN: add(ASSIGN, {sl(), i64(r.below(12)), ln(), sd(), sl()}); break;
                case PUSH: add(PUSH, {sl(), i64(r.below(8)), r.chance(1, 2) ? 0 : r.range(0, 12), sd(), sl()}); break;
                case INSERT: add(INSERT, {sl(), i64(r.below(14)), ln(), sd(), sl()}); break;
                case ERASE: add(ERASE, {sl(), r.chance(1, 30) ? 9 : r.chance(1, 6) ? i64(10 + r.below(2)) : i64(r.below(9)), ln(), sd()}); break;
                case RESIZE: add(RESIZE, {sl(), i64(r.below(4)), ln(), sd()}); break;
                case RESERVE: add(RESERVE, {sl(), ln()}); break;
                case SHRINK: add(SHRINK, {sl()}); break;
                case SWAP: add(SWAP, {sl(), sl(), i64(r.below(2))}); break;
                case MUTATE: add(MUTATE, {sl(), i64(r.below(8)), sd()}); break;
                case FILL: add(FILL, {sl(), i64(r.below(4)), ln(), sd()}); break;
                case READ: add(READ, {sl(), sl(), sd()}); break;
                case HUGE_REQ: add(HUGE_REQ, {sl(), i64(r.below(9)), i64(r.below(16))}); break;
                case OOM:
                    add(OOM, {r.chance(3, 4) ? 0 : i64(r.below(4)), r.chance(1, 2) ? 1 : 100});
                    pending = true;
                    break;
                case THROW:
                    add(THROW, {r.chance(1, 3) ? 0 : r.range(0, r.chance(1, 2) ? 5 : 30), r.chance(3, 4) ? 1 : 2});
                    pending = true;
                    break;
                case OUTAGE: add(OUTAGE, {1}); break;
                case HEAL: add(HEAL, {}); break;
                default: break;
            }
        }
    }

    void run(const Trace& t) override {
        std::vector<char> threw(t.ops.size() + 1, 0);
        Mismatch m;
        g_large_only = t.prop == "C15" || t.prop == "C17";
        auto* e = executor(t.c("elem")).release();  // never destroyed after a mismatch: what it holds is broken
        if (e->exec(t, true, threw, m)) {
            delete e;
            heap::check_empty("C14,C15,C16,C17", t.prop == "C14" || t.prop == "C17" ? "C17:leak" : (t.prop + ":leak").c_str());
            return;
        }
        std::size_t at = g_slot->step.load();
        bool owner = m.kind == "element" || m.kind == "objects" || m.kind == "resources" || m.kind == "leak" || m.kind == "constructed";
        if (t.prop == "C14" && owner && m.kind != "constructed") return;
        if (t.prop == "C17" && !owner) return;
        if ((t.prop == "C15" || t.prop == "C16") && !m.direct && m.kind != "spurious") {
            // control: the same history without the failed attempts. If it disagrees as well, the failure is not the cause.
            Mismatch m2;
            heap::begin_run(t.seed);
            auto* e2 = executor(t.c("elem")).release();
            if (!e2->exec(t, false, threw, m2) && g_slot->step.load() <= at) return;
        }
        g_slot->step.store(at);
        fail((t.prop + ":" + m.kind).c_str(), "%s", m.msg.c_str());
    }
};
}  // namespace

sim::World* sim::make_world() { return new VectorWorld(); }
