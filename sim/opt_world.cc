// Simulated world of option parsers: histories of declarations, parses, copies and moves of several parsers while the process
// environment changes and allocations fail, judged by a reference parser written from the documented behaviour.
#include <cstdlib>
#include <memory>
#include <optional>
#include <span>
#include <sstream>

#include "core.hpp"
#include "optparse/optparse.hpp"

using namespace sim;
namespace so = stdb::optparse;
namespace {
constexpr int kSlots = 3;
constexpr int kEnv = 4;
enum { NEWP, DECL, PARSE, SETENV, UNSETENV, COPY, MOVE, DEL, INFO, SHOW, OOM, kOpCount };
const std::vector<OpDesc> kOps = {
  {"new", 2}, {"declare", 2}, {"parse", 3}, {"setenv", 2}, {"unsetenv", 1}, {"copy", 2}, {"move", 2}, {"delete", 1}, {"info", 3}, {"show", 2}, {"oom", 2},
};

using Val = so::Value;
struct Opt
{
    std::vector<std::string> names;
    so::Action action = so::Null;
    so::Type type = so::String;
    std::string dest, def, env;
    std::vector<std::string> choices;
    bool help_given = false;
};
struct Model
{
    char prefix = '-';
    bool replace = false;
    std::vector<Opt> opts;
    std::map<std::string, std::size_t> by_name;
    std::string program, usage, version;
};
struct Result
{
    std::string error;  // "", "logic"
    std::map<std::string, Val> values;
    std::map<std::string, std::vector<Val>> lists;
    std::map<std::string, bool> set;
    std::vector<std::size_t> rest;  // indices into argv
};

std::string trim(const std::string& s) {
    const char* ws = " \t\n\r\f\v";
    auto b = s.find_first_not_of(ws);
    if (b == std::string::npos) return "";
    return s.substr(b, s.find_last_not_of(ws) - b + 1);
}
template <typename T>
T number(const std::string& s) {
    T v{};
    std::istringstream i(s);
    i >> v;
    return v;
}
bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

class Ref  // the reference parser
{
    const Model& m_;
    Result& r_;
    std::map<std::string, std::string>& env_;
    const std::vector<std::string>& argv_;
    std::size_t i_ = 1;

    bool prefixed(const std::string& s) const { return !s.empty() && s[0] == m_.prefix; }
    static std::optional<Val> value(const Opt& o, const std::string& s) {
        switch (o.type) {
            case so::Bool: return Val(number<bool>(s));
            case so::Int: return Val(number<int32_t>(s));
            case so::Long: return Val(number<int64_t>(s));
            case so::Float: return Val(number<float>(s));
            case so::Double: return Val(number<double>(s));
            case so::Choice:
                for (auto& c : o.choices)
                    if (c == s) return Val(s);
                return std::nullopt;
            default: return Val(s);
        }
    }
    void take(const Opt& o, const std::string& s) {
        bool flag = o.action == so::StoreTrue || o.action == so::StoreFalse;
        if (o.action == so::Count) {
            auto it = r_.values.find(o.dest);
            int n = it == r_.values.end() ? 0 : std::get<int>(it->second);
            r_.values[o.dest] = Val(n + 1);
            return;
        }
        if (flag && s.empty()) {
            r_.values[o.dest] = Val(o.action == so::StoreTrue);
            r_.set[o.dest] = true;
            return;
        }
        if (o.action != so::Append) {
            if (auto v = value(o, s)) {
                r_.values[o.dest] = *v;
                r_.set[o.dest] = true;
            }
            return;
        }
        std::vector<std::string> parts;
        if (s.find(',') == std::string::npos)
            parts.push_back(s);
        else {
            std::string cur;
            for (char c : s + ",") {
                if (c == ',') {
                    if (!cur.empty()) parts.push_back(trim(cur));
                    cur.clear();
                } else
                    cur += c;
            }
        }
        for (auto& p : parts) {
            auto v = value(o, p);
            if (!v) return;
            r_.lists[o.dest].push_back(*v);
            r_.set[o.dest] = true;
        }
    }

   public:
    bool used_env = false, used_default = false;
    Ref(const Model& m, Result& r, std::map<std::string, std::string>& env, const std::vector<std::string>& argv) : m_(m), r_(r), env_(env), argv_(argv) {}
    void parse() {
        std::string lp(2, m_.prefix);
        for (auto& o : m_.opts)
            if (o.names.empty() || o.action == so::Null || o.dest.empty() || (o.type != so::Choice && !o.choices.empty())) {
                r_.error = "logic";
                return;
            }
        while (i_ < argv_.size()) {
            const std::string& a = argv_[i_];
            if (!prefixed(a)) {
                r_.rest.push_back(i_++);
                continue;
            }
            auto eq = a.find('=');
            auto it = m_.by_name.find(trim(a.substr(0, eq)));
            std::size_t self = i_++;
            if (it == m_.by_name.end()) {
                r_.rest.push_back(self);
                continue;
            }
            const Opt& o = m_.opts[it->second];
            bool next = i_ < argv_.size() && !prefixed(argv_[i_]);
            if (eq == std::string::npos && !next) {
                if (o.type != so::Bool) {
                    r_.error = "logic";
                    return;
                }
                take(o, "");
                continue;
            }
            std::string v = eq == std::string::npos ? "" : a.substr(eq + 1);
            if (v.empty()) {
                if (i_ >= argv_.size()) {
                    r_.rest.push_back(self);
                    continue;
                }
                v = argv_[i_++];
            }
            take(o, v);
            while (i_ < argv_.size() && !prefixed(argv_[i_])) {
                if (o.action == so::Append)
                    take(o, argv_[i_++]);
                else
                    r_.rest.push_back(i_++);
            }
        }
        for (auto& o : m_.opts)
            if (!o.def.empty() && !r_.set[o.dest]) take(o, o.def), used_default = true;
        for (auto& o : m_.opts)
            if (!o.env.empty() && !r_.set[o.dest]) {
                auto it = env_.find(o.env);
                if (it != env_.end()) take(o, it->second), used_env = true;
            }
    }
};

std::string show(const Val& v) {
    std::ostringstream o;
    if (auto* s = std::get_if<std::string>(&v))
        o << '"' << *s << '"';
    else
        std::visit([&](auto& x) {
            if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::string>) o << +x;
        }, v);
    return o.str() + "#" + std::to_string(v.index());
}
bool same(const Val& a, const Val& b) {
    if (a.index() != b.index()) return false;
    return std::visit([&](auto& x) {
        using T = std::decay_t<decltype(x)>;
        const T& y = std::get<T>(b);
        if constexpr (std::is_floating_point_v<T>) return x == y || (x != x && y != y);
        else if constexpr (std::is_same_v<T, bool>) return memcmp(&x, &y, 1) == 0;
        else return x == y;
    }, a);
}

struct Argv  // exact-size copies: reading past an argument or the vector is seen
{
    std::vector<std::string> s;
    const char** p = nullptr;
    explicit Argv(std::vector<std::string> v) : s(std::move(v)) {
        p = static_cast<const char**>(malloc(sizeof(char*) * (s.size() ? s.size() : 1)));
        for (std::size_t i = 0; i < s.size(); ++i) p[i] = strdup(s[i].c_str());
    }
    Argv(const Argv&) = delete;
    ~Argv() {
        for (std::size_t i = 0; i < s.size(); ++i) free(const_cast<char*>(p[i]));
        free(p);
    }
};

enum Ex { kNone, kLogic, kBadAlloc, kOther };
const char* exname(Ex e) { return e == kNone ? "no exception" : e == kLogic ? "std::logic_error" : e == kBadAlloc ? "std::bad_alloc" : "another exception"; }

class OptWorld : public World
{
    struct State
    {
        std::unique_ptr<so::OptionParser> p[kSlots];
        Model m[kSlots];
        std::map<std::string, std::string> env;
        std::shared_ptr<Argv> last[kSlots];  // what invalid_args() and get_raw_argv() point into
        bool armed = false, moved[kSlots] = {};
        i64 fk = 0, fl = 0;
    };
    State* S = nullptr;

    template <typename F>
    Ex guarded(bool faults, F&& f) {
        Ex e = kNone;
        if (faults && S->armed) heap::plan(S->fk, S->fl);
        try {
            CUT c;
            f();
        } catch (const std::bad_alloc&) {
            e = kBadAlloc;
        } catch (const std::logic_error&) {
            e = kLogic;
        } catch (const std::exception&) {
            e = kOther;
        }
        g_cut = 0;
        fired_ = heap::fired();
        heap::clear_plan();
        if (faults) S->armed = false;
        return e;
    }
    u64 fired_ = 0;

    static std::string envname(u64 k) { return "SIM_OPT_" + std::string(1, char('A' + k % kEnv)); }
    static std::string name(Rng& r, char p, bool wild) {
        static const char* kShort[] = {"a", "b", "c", "sz", "v", "h", "ab"};
        static const char* kLong[] = {"alpha", "beta", "gamma", "help", "version", "a", "alphabet", "a-long-option-name-beyond-any-inline-buffer"};
        if (wild && r.chance(1, 12)) {
            switch (r.below(3)) {
                case 0: return "";
                case 1: return "alpha";
                default: return std::string(1, p == '-' ? '+' : '-') + "a";
            }
        }
        if (r.chance(1, 2)) return std::string(1, p) + kShort[r.below(r.chance(1, 3) ? 7 : 4)];
        return std::string(2, p) + kLong[r.below(8)];
    }
    static std::string value(Rng& r) {
        static const char* kV[] = {"1", "0", "12", "-3", "2.5", "1e3", "abc", "work", "wait", " 7", "9999999999999", "99999999999999999999", "true", "", ",", "1,2, 3",
                                   "work,wait", "work,none", "1,,2", " ", "x=y", "a longer value that needs memory of its own", "some,rather long list,of,values that need memory", "0x10", "+4",
                                   "123456789012345678901234567890.5"};
        return kV[r.below(sizeof kV / sizeof *kV)];
    }

    // what add_option does with these names: index, or nothing (an exception)
    static int ref_register(Model& m, Opt o) {
        std::string lp(2, m.prefix);
        std::map<std::string, std::size_t> reg = m.by_name;
        for (auto& n : o.names) {
            if (n.empty() || n[0] != m.prefix) return -1;
            if (!m.replace && reg.count(n)) return -1;
            reg[n] = m.opts.size();
        }
        m.by_name = std::move(reg);
        m.opts.push_back(std::move(o));
        return int(m.opts.size()) - 1;
    }
    static bool is_long(const Model& m, const std::string& n) { return n.size() > 2 && n[0] == m.prefix && n[1] == m.prefix; }
    static void default_dests(Model& m) {
        for (auto& o : m.opts)
            if (o.dest.empty())
                for (auto& n : o.names)
                    if (is_long(m, n)) {
                        o.dest = n.substr(2);
                        break;
                    }
    }
    static void add_standard(Model& m) {
        for (const char* n : {"usage", "help", "version"}) add_standard(m, n);
    }
    static void add_standard(Model& m, const char* l) {
        std::string s(1, *l);
        {
            std::string sn = std::string(1, m.prefix) + s, ln = std::string(2, m.prefix) + l;
            if (m.by_name.count(sn) || m.by_name.count(ln)) return;
            Opt o;
            o.names = {sn, ln};
            o.dest = l;
            o.action = so::StoreTrue;
            o.type = so::Bool;
            ref_register(m, o);
        }
    }

    void bad(const char* kind, const std::string& msg) { fail((std::string("C20:") + kind).c_str(), "%s", msg.c_str()); }

    void check_info(int t) {
        if (!S->p[t]) return;
        auto& p = *S->p[t];
        std::string pr, us, ve;
        {
            CUT c;
            std::string a = p.program(), b = p.usage(), v = p.version();
            Harness h;
            pr = a.c_str(), us = b.c_str(), ve = v.c_str();
        }
        auto& m = S->m[t];
        if (pr != m.program) bad("info", "program() is \"" + pr + "\", expected \"" + m.program + "\"");
        if (us != m.usage) bad("info", "usage() is \"" + us + "\", expected \"" + m.usage + "\"");
        if (ve != m.version) bad("info", "version() is \"" + ve + "\", expected \"" + m.version + "\"");
    }

    void parse(int t, std::vector<std::string> args, bool faults, int depth = 0) {
        auto& m = S->m[t];
        auto av = std::make_shared<Argv>(args);
        int argc = int(args.size());
        Result want;
        Model before = m;
        Ref ref(m, want, S->env, av->s);
        if (argc == 0)
            want.error = "logic";
        else {
            if (m.program.empty()) m.program = args[0];
            default_dests(m);
            bool complete = true;
            for (auto& o : m.opts)
                if (o.action == so::Null || o.dest.empty() || (o.type != so::Choice && !o.choices.empty())) complete = false;
            if (complete) add_standard(m);
            ref.parse();
        }
        std::optional<so::ValueStore> got;
        Ex e = guarded(faults, [&] { got.emplace(S->p[t]->parse_args(argc, av->p)); });
        bool fired = fired_ != 0;
        if (fired) count("fault.parse_out_of_memory"), ::interesting();
        if (ref.used_env) count("parse.used_environment"), ::interesting();
        if (S->moved[t]) count("parse.on_copied_or_moved_parser"), ::interesting();
        count("parse");
        if (want.error == "logic") count("parse.rejected");
        std::string cmd;
        for (auto& a : args) cmd += " [" + a + "]";
        if (g_verbose) logf("      %s -> %s\n", cmd.c_str(), exname(e));
        ev(u64(e));
        note_state(mix2(mix2(m.opts.size(), want.values.size() * 16 + want.lists.size()), mix2(u64(e) * 2 + fired, want.rest.size() * 8 + args.size())));
        if (e == kBadAlloc && fired) {
            // the same parser must now answer as if the failed attempt had not happened
            S->last[t].reset();
            if (depth == 0) {
                // a program name may or may not have been taken over from argv[0]
                if (argc > 0 && before.program.empty()) {
                    std::string pr = S->p[t]->program();
                    if (!pr.empty() && pr != args[0]) bad("info", "after a failed parse program() is \"" + pr + "\"");
                }
                m = before;
                if (argc > 0 && S->p[t]->program() == args[0]) m.program = args[0];
                parse(t, args, false, 1);
            }
            return;
        }
        Ex we = want.error.empty() ? kNone : kLogic;
        if (e != we) bad("outcome", "parsing" + cmd + " ended with " + exname(e) + ", expected " + exname(we) + (fired ? " (an allocation failed)" : ""));
        S->last[t] = av;
        if (e != kNone) return;
        compare(*got, want, m, cmd);
        // what is left over, in order, the very pointers of argv
        auto inv = [&] {
            CUT c;
            return S->p[t]->invalid_args();
        }();
        std::string l;
        bool ok = inv.size() == want.rest.size();
        for (std::size_t i = 0; i < inv.size(); ++i) {
            l += std::string(" [") + inv[i] + "]";
            if (ok && inv[i] != av->p[want.rest[i]]) ok = false;
        }
        std::string wl;
        for (auto k : want.rest) wl += " [" + args[k] + "]";
        if (!ok) bad("rest", "parsing" + cmd + " left over" + l + ", expected" + wl);
        int rc;
        std::unique_ptr<const char*[]> rv;
        {
            CUT c;
            rc = S->p[t]->get_raw_argc();
            rv = S->p[t]->get_raw_argv();
        }
        ok = rc == int(want.rest.size()) + 1 && rv[0] == av->p[0];
        for (int i = 1; ok && i < rc; ++i) ok = rv[i] == av->p[want.rest[std::size_t(i) - 1]];
        if (!ok) bad("rest", "parsing" + cmd + ": get_raw_argc/get_raw_argv do not give the program name and what was left over" + wl);
        {
            CUT c;
            rv.reset();
            inv = {};
            got.reset();
        }
    }
    void compare(const so::ValueStore& got, Result& want, const Model& m, const std::string& cmd) {
        std::map<std::string, int> dests;
        for (auto& o : m.opts) dests[o.dest] = 1;
        dests["nothing"] = 1;
        for (auto& [d, x] : dests) {
            auto it = want.values.find(d);
            auto prob = [&](const std::string& g) {
                bad("value", "parsing" + cmd + ": " + d + " is " + g + ", expected " + (it == want.values.end() ? "nothing" : show(it->second)));
            };
            if (it == want.values.end()) {
                CUT c;
                bool any = got.get<bool>(d).has_value();
                g_cut = 0;
                if (any) prob("set");
                ++g_cut;
            } else
                std::visit([&](auto& w) {
                    using T = std::decay_t<decltype(w)>;
                    CUT c;
                    auto g = got.get<T>(d);
                    Harness h;
                    if (!g) prob("nothing");
                    if (!same(Val(*g), it->second)) prob(show(Val(*g)));
                }, it->second);
            auto lt = want.lists.find(d);
            CUT c;
            auto gl = got.get_list(d);
            Harness h;
            if (gl.has_value() != (lt != want.lists.end())) bad("list", "parsing" + cmd + ": list " + d + (gl ? " is set" : " is missing"));
            if (gl) {
                bool ok = gl->size() == lt->second.size();
                std::string a, b;
                for (auto& v : *gl) a += " " + show(v);
                for (auto& v : lt->second) b += " " + show(v);
                for (std::size_t i = 0; ok && i < gl->size(); ++i) ok = same((*gl)[i], lt->second[i]);
                if (!ok) bad("list", "parsing" + cmd + ": list " + d + " is" + a + ", expected" + b);
            }
            bool us = got.user_set(d);
            if (us != bool(want.set[d])) bad("user_set", "parsing" + cmd + ": user_set(" + d + ") is " + (us ? "true" : "false"));
        }
    }

    std::vector<std::string> make_args(int t, u64 seed, i64 n) {
        auto& m = S->m[t];
        std::vector<std::string> a;
        if (n < 0) return a;
        a.push_back(mix64(seed) % 2 ? "prog" : "a/program/with/a/rather/long/path");
        for (i64 i = 0; i < n; ++i) {
            Rng r(mix2(seed, u64(i)));
            std::string nm;
            if (!m.opts.empty() && r.chance(4, 5)) {
                auto& o = m.opts[r.below(m.opts.size())];
                if (!o.names.empty()) nm = o.names[r.below(o.names.size())];
            } else
                nm = name(r, m.prefix, true);
            switch (r.below(14)) {
                case 0: case 1: case 2: a.push_back(nm); break;
                case 3: case 4: a.push_back(nm + "=" + value(r)); break;
                case 5: a.push_back(nm + " =" + value(r)); break;
                case 6: a.push_back(nm + "="); break;
                case 7: case 8: case 9: a.push_back(nm), a.push_back(value(r)); break;
                case 10: a.push_back(value(r)); break;
                case 11: a.push_back(value(r)), a.push_back(value(r)); break;
                case 12: a.push_back(nm), a.push_back(value(r)), a.push_back(value(r)); break;
                default: a.push_back(std::string(1 + r.below(2), m.prefix) + value(r)); break;
            }
        }
        return a;
    }

    void declare(int t, u64 seed) {
        Rng r(seed + 5);
        auto& m = S->m[t];
        auto& p = *S->p[t];
        Opt o;
        std::size_t nn = r.chance(1, 12) ? 3 : 1 + r.below(2);
        for (std::size_t i = 0; i < nn; ++i) o.names.push_back(name(r, m.prefix, true));
        int how = int(r.below(2));
        so::Option* got = nullptr;
        Ex e = guarded(true, [&] {
            if (nn == 1)
                got = how ? &p.add_option(o.names[0]) : &p.add_option({o.names[0]});
            else if (nn == 2)
                got = how ? &p.add_option(o.names[0], o.names[1]) : &p.add_option({o.names[0], o.names[1]});
            else
                got = &p.add_option({o.names[0], o.names[1], o.names[2]});
        });
        if (fired_) count("fault.declare_out_of_memory"), ::interesting();
        ev(u64(e) + 50);
        std::string l;
        for (auto& n : o.names) l += " [" + n + "]";
        if (g_verbose) logf("      declare%s -> %s\n", l.c_str(), exname(e));
        if (e == kBadAlloc && fired_) return;
        Model copy = m;
        int k = ref_register(m, o);
        Ex we = k < 0 ? kLogic : kNone;
        if (e != we) bad("declare", "declaring" + l + " ended with " + exname(e) + ", expected " + exname(we));
        if (e != kNone) {
            m = copy;
            count("declare.rejected");
            return;
        }
        Opt& w = m.opts[std::size_t(k)];
        bool incomplete = r.chance(1, 40);
        static const so::Type kT[] = {so::Bool, so::Bool, so::Int, so::Long, so::Float, so::Double, so::String, so::String};
        w.action = r.chance(1, 12) ? so::Count : r.pick({so::Store, so::Store, so::StoreTrue, so::StoreFalse, so::Append});
        w.type = w.action == so::Append ? kT[2 + r.below(6)] : (w.action == so::StoreTrue || w.action == so::StoreFalse) && r.chance(9, 10) ? so::Bool : kT[r.below(8)];
        if (incomplete && r.chance(1, 2)) w.action = so::Null;
        bool needdest = true, settype = r.chance(1, 2);
        for (auto& n : w.names)
            if (is_long(m, n)) needdest = false;
        if (w.action == so::Count) {
            w.dest = "count" + std::to_string(k);
        } else if ((needdest && !incomplete) || r.chance(1, 2)) {
            static const char* kD[] = {"one", "two", "three", "a destination name beyond any inline buffer"};
            w.dest = kD[r.below(4)];
        }
        so::Type first = w.type;
        int choose = 0, deflt = 0, number = 0;
        if ((w.action == so::Store || w.action == so::Append) && w.type == so::String && r.chance(1, 3)) {
            choose = 1 + int(r.below(2));
            w.choices = {"work", "wait", "a longer value that needs memory of its own"};
            if (!incomplete) w.type = so::Choice;
        }
        if (w.action != so::Count && r.chance(1, 3)) {
            deflt = 1 + int(r.below(3));
            w.def = value(r);
            number = int(r.below(100)) - 50;
            if (deflt == 3) w.def = std::to_string(number);
        }
        if (w.action != so::Count && r.chance(1, 3)) w.env = envname(r.below(kEnv));
        bool help = r.chance(1, 3);
        {
            CUT c;
            if (w.action != so::Null) got->action(w.action);
            if (first != so::String || settype) got->type(first);
            if (!w.dest.empty()) got->dest(w.dest);
            if (choose == 1) got->choices({"work", "wait", "a longer value that needs memory of its own"});
            if (choose == 2) got->choices(w.choices.begin(), w.choices.end());
            if (choose && incomplete) got->type(so::String);
            if (deflt == 1) got->default_value(w.def.c_str());
            if (deflt == 2) got->default_value(w.def);
            if (deflt == 3) got->default_value(number);
            if (!w.env.empty()) got->env(w.env);
            if (help) got->help("what it is for, at some length");
        }
        if (got->action() != w.action || got->type() != w.type) bad("declare", "an option does not keep its action or type");
        if (got->dest() != w.dest || got->default_value() != w.def || got->env() != w.env) bad("declare", "an option does not keep its destination, default or environment variable");
        if (got->names().size() != w.names.size()) bad("declare", "an option does not keep its names");
        for (std::size_t i = 0; i < w.names.size(); ++i)
            if (got->names()[i] != w.names[i]) bad("declare", "an option does not keep its names");
    }

    void step(const Op& o) {
        int t = int(u64(o.a[0]) % kSlots);
        if (S->p[t] == nullptr && o.code != NEWP && o.code != COPY && o.code != MOVE && o.code != OOM && o.code != SETENV && o.code != UNSETENV) return;
        switch (o.code) {
            case NEWP: {
                static const char kP[] = {'-', '-', '+', '#', '$', '&', '%', 'x'};
                u64 k = u64(o.a[1]);
                char pc = kP[k % 8];
                int form = int(k / 8 % 4);
                if (form == 0 || form == 2) pc = '-';
                bool repl = form >= 2 && k / 32 % 2;
                std::unique_ptr<so::OptionParser> np;
                Ex e = guarded(true, [&] {
                    auto h = repl ? so::ConflictHandler::Replace : so::ConflictHandler::Error;
                    switch (form) {
                        case 0: np = std::make_unique<so::OptionParser>(); break;
                        case 1: np = std::make_unique<so::OptionParser>(pc); break;
                        case 2: np = std::make_unique<so::OptionParser>(h); break;
                        default: np = std::make_unique<so::OptionParser>(pc, h); break;
                    }
                });
                if (e == kBadAlloc && fired_) {
                    count("fault.create_out_of_memory");
                    return;
                }
                Ex we = pc == 'x' ? kLogic : kNone;
                if (e != we) bad("create", std::string("creating a parser with prefix '") + pc + "' ended with " + exname(e));
                if (e != kNone) return;
                drop(t);
                S->p[t] = std::move(np);
                S->m[t] = Model();
                S->m[t].prefix = pc;
                S->m[t].replace = repl;
                break;
            }
            case DECL: declare(t, u64(o.a[1])); break;
            case PARSE: parse(t, make_args(t, u64(o.a[1]), o.a[2]), true); break;
            case SETENV: {
                Rng r(u64(o.a[1]) + 3);
                std::string v = value(r);
                setenv(envname(u64(o.a[0])).c_str(), v.c_str(), 1);
                S->env[envname(u64(o.a[0]))] = v;
                count("fault.environment_changed");
                break;
            }
            case UNSETENV:
                unsetenv(envname(u64(o.a[0])).c_str());
                S->env.erase(envname(u64(o.a[0])));
                count("fault.environment_changed");
                break;
            case COPY: {
                int b = int(u64(o.a[1]) % kSlots);
                if (!S->p[b] || b == t) return;
                std::unique_ptr<so::OptionParser> np;
                Ex e = guarded(true, [&] { np = std::make_unique<so::OptionParser>(*S->p[b]); });
                if (e == kBadAlloc && fired_) {
                    count("fault.copy_out_of_memory");
                    ::interesting();
                    return;
                }
                if (e != kNone) bad("copy", std::string("copying a parser ended with ") + exname(e));
                drop(t);
                S->p[t] = std::move(np);
                S->m[t] = S->m[b];
                S->moved[t] = true;
                break;
            }
            case MOVE: {
                int b = int(u64(o.a[1]) % kSlots);
                if (!S->p[b] || b == t) return;
                std::unique_ptr<so::OptionParser> np;
                {
                    void* mem = nullptr;
                    {
                        CUT c;
                        mem = ::operator new(sizeof(so::OptionParser));
                    }
                    if (S->armed) heap::plan(S->fk, S->fl);
                    {
                        CUT c;
                        np.reset(new (mem) so::OptionParser(std::move(*S->p[b])));
                    }
                    heap::clear_plan();
                    S->armed = false;
                }
                drop(t);
                Model mm = S->m[b];
                drop(b);
                S->p[t] = std::move(np);
                S->m[t] = mm;
                S->moved[t] = true;
                break;
            }
            case DEL: drop(t); break;
            case INFO: {
                Rng r(u64(o.a[2]));
                std::string v = r.chance(1, 2) ? "short" : "a text that needs memory of its own, 12345";
                int k = int(u64(o.a[1]) % 6);
                auto& m = S->m[t];
                switch (k) {
                    case 0: m.program = v; break;
                    case 1: m.usage = v; break;
                    case 2: m.version = v; break;
                    case 3: add_standard(m, "usage"); break;
                    case 4: add_standard(m, "help"); break;
                    default: m.version = v; add_standard(m, "version"); break;
                }
                CUT c;
                auto& p = *S->p[t];
                if (k == 0) p.program(v);
                if (k == 1) p.usage(v);
                if (k == 2) p.version(v);
                if (k == 3) p.add_usage_option(v);
                if (k == 4) p.add_help_option(v);
                if (k == 5) p.add_version_option(v);
                break;
            }
            case SHOW: {
                auto& m = S->m[t];
                auto& p = *S->p[t];
                u64 k = u64(o.a[1]) % 3;
                std::string txt;
                Ex e = guarded(true, [&] {
                    std::string x = k == 0 ? p.format_help() : k == 1 ? p.format_usage() : p.format_verison();
                    Harness h;
                    txt = x.c_str();
                });
                if (fired_) count("fault.show_out_of_memory");
                if (e == kBadAlloc && fired_) {
                    m.usage = p.usage();  // the text is composed on first use
                    m.version = p.version();
                    return;
                }
                if (e != kNone) bad("show", std::string("showing help, usage or version ended with ") + exname(e));
                if (k == 0)
                    for (auto& op : m.opts)
                        for (auto& n : op.names)
                            if (txt.find(n) == std::string::npos) bad("show", "the help text does not mention " + n);
                if (k == 1 && !m.usage.empty() && txt != m.usage) bad("show", "the usage text is not the one that was set");
                if (k == 2 && !m.version.empty() && txt != m.version) bad("show", "the version text is not the one that was set");
                m.usage = p.usage();
                m.version = p.version();
                break;
            }
            case OOM:
                S->armed = true;
                S->fk = o.a[0];
                S->fl = o.a[1];
                break;
            default: break;
        }
    }
    void drop(int t) {
        CUT c;
        S->p[t].reset();
        Harness h;
        S->last[t].reset();
        S->moved[t] = false;
    }

   public:
    const char* name() const override { return "opt"; }
    const char* components() const override {
        return "real: optparse/*.hpp, optparse/*.cc, container/stdb_vector.hpp; simulated: malloc/free and operator new, the process environment; reference: a second parser written from the documented behaviour";
    }
    const std::vector<OpDesc>& ops() const override { return kOps; }

    void generate(Rng& r, const std::string&, Trace& t) override {
        int ns = 1 + int(r.below(kSlots));
        bool oom = r.chance(1, 2);
        std::vector<u32> w(kOpCount, 0);
        w[NEWP] = 1, w[DECL] = 14, w[PARSE] = 24, w[SETENV] = 5, w[UNSETENV] = 2, w[COPY] = 3, w[MOVE] = 3, w[DEL] = 1, w[INFO] = 2, w[SHOW] = 2;
        if (oom) w[OOM] = 16;
        for (auto& x : w)
            if (x && r.chance(1, 10)) x = 0;
        w[PARSE] += 4;
        auto add = [&](int code, std::initializer_list<i64> a) {
            Op o;
            o.code = code;
            int i = 0;
            for (i64 x : a) o.a[i++] = x;
            t.ops.push_back(o);
        };
        auto sl = [&] { return i64(r.below(u64(ns))); };
        auto sd = [&] { return i64(r.below(1000000)); };
        for (int i = 0; i < ns; ++i) {
            if (i && r.chance(1, 3)) continue;
            add(NEWP, {i64(i), r.chance(1, 2) ? 0 : i64(r.below(64))});
            for (u64 k = r.below(6); k > 0; --k) add(DECL, {i64(i), sd()});
        }
        int n = 4 + int(r.below(r.chance(1, 3) ? 40 : 14));
        bool pending = false;
        for (int i = 0; i < n; ++i) {
            int code = int(r.weighted(w));
            if (pending && code != PARSE && code != DECL && code != COPY && code != SHOW) code = r.pick({int(PARSE), int(PARSE), int(DECL), int(COPY), int(SHOW)});
            pending = false;
            switch (code) {
                case NEWP: add(NEWP, {sl(), i64(r.below(64))}); break;
                case PARSE: add(PARSE, {sl(), sd(), r.chance(1, 40) ? -1 : i64(r.below(r.chance(1, 4) ? 12 : 5))}); break;
                case SETENV: add(SETENV, {i64(r.below(kEnv)), sd()}); break;
                case UNSETENV: add(UNSETENV, {i64(r.below(kEnv))}); break;
                case COPY: case MOVE: add(code, {sl(), sl()}); break;
                case DEL: add(DEL, {sl()}); break;
                case INFO: add(INFO, {sl(), i64(r.below(6)), sd()}); break;
                case SHOW: add(SHOW, {sl(), i64(r.below(3))}); break;
                case OOM:
                    add(OOM, {r.chance(1, 2) ? i64(r.below(12)) : i64(r.below(120)), r.chance(2, 3) ? 1 : 1000});
                    pending = true;
                    break;
                default: add(DECL, {sl(), sd()}); break;
            }
        }
    }

    void run(const Trace& t) override {
        State st;
        S = &st;
        for (u64 k = 0; k < kEnv; ++k) unsetenv(envname(k).c_str());
        for (std::size_t i = 0; i < t.ops.size(); ++i) {
            const Op& o = t.ops[i];
            g_slot->step.store(i);
            logf("%3zu %s %lld %lld %lld\n", i, kOps[std::size_t(o.code)].name, (long long)o.a[0], (long long)o.a[1], (long long)o.a[2]);
            ev(u64(o.code) + 1);
            step(o);
            for (int k = 0; k < kSlots; ++k) check_info(k);
        }
        st.armed = false;
        for (int k = 0; k < kSlots; ++k)
            if (st.p[k]) {
                parse(k, make_args(k, mix2(t.seed, u64(k)), 4), false);
                check_info(k);
            }
        for (int k = 0; k < kSlots; ++k) drop(int((mix64(t.seed) + u64(k)) % kSlots));
        for (u64 k = 0; k < kEnv; ++k) unsetenv(envname(k).c_str());
        heap::check_empty("C20", "C20:leak");
        S = nullptr;
    }
};
}  // namespace

sim::World* sim::make_world() { return new OptWorld(); }
