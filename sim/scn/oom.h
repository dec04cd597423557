// One operation, once with memory and once with a chosen allocation failing: the exact result or an exception,
// operands as before, nothing lost.
#ifndef OOM_H_
#define OOM_H_

#include "apart.h"

#include <functional>

namespace oom {

typedef std::string Str;

struct Stats { uint32_t ops, fired, threw, survived, failing_anyway; };
Stats stats;

struct Op
{
    Str name;
    int target;         // operand changed in place, -1: none
    bool piecewise;     // the target may be left extended by a part of what is appended
};

inline bool prefix(const Str& p, const Str& s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; }

// State: copy-constructible operands; void render(std::vector<Str>&) const, run as library code without faults.
// Result: default-constructible; Str render() const.
template <typename State, typename Result>
struct Judge
{
    typedef std::function<void(State&, Result&)> F;

    static std::vector<Str> show(const State& s)
    {
        std::vector<Str> v;
        const sim::Outcome o = sim::lib([&] { s.render(v); });
        if (!o.ok()) sim::check_fail("operand-unusable", Str("an operand cannot be read any more: ") + sim::kind_name(o.kind) + " " + o.what);
        return v;
    }
    static Str show(const Result& r)
    {
        Str t;
        const sim::Outcome o = sim::lib([&] { t = r.render(); });
        if (!o.ok()) sim::check_fail("result-unusable", Str("the result cannot be read: ") + sim::kind_name(o.kind) + " " + o.what);
        return t;
    }

    static Str summary(const sim::Outcome& o, const Str& want, const std::vector<Str>& after)
    {
        Str t = Str(sim::kind_name(o.kind)) + "|" + want;
        for (const Str& a : after) t += "|" + a;
        return t;
    }

    // What the operation gives in a process of its own, in which nothing has failed: a failed attempt must not
    // change the results of later calls either, and calls in this process cannot tell.
    static Str elsewhere(const State& s, const F& f)
    {
        return sim::apart([&] {
            State* ref = nullptr;
            sim::lib([&] { ref = new State(s); });
            Result* r = nullptr;
            sim::lib([&] { r = new Result; });
            const sim::Outcome o = sim::lib([&] { f(*ref, *r); });
            return summary(o, o.ok() ? show(*r) : Str(), show(*ref));
        });
    }

    static sim::Outcome attempt(State& s, Result& r, const F& f, uint32_t k, bool persistent, bool& fired)
    {
        sim_alloc_arm(k, persistent);
        const sim::Outcome o = sim::lib([&] { f(s, r); });
        fired = sim_alloc_fired() > 0;
        sim_alloc_arm(0, 0);
        return o;
    }

    // f(State&, Result&)
    static void run(State*& s, const Op& op, const F& f, bool memory)
    {
        ++stats.ops;
        State* ref = nullptr;
        sim::lib([&] { ref = new State(*s); });
        Result* r0 = nullptr;
        sim::lib([&] { r0 = new Result; });
        Result* r1 = nullptr;
        sim::lib([&] { r1 = new Result; });
        const std::vector<Str> before = show(*s);
        const bool persistent = memory && sim::chance(250);
        sim::Outcome o1 = sim::Outcome();
        bool fired = false;
        uint32_t k = 0;
        // the first call of an operation may prepare what later calls reuse: let the failing call come first at times
        const bool first = memory && sim::chance(400);
        const bool apart = first && sim::chance(300);
        // drawn the same way whatever the operation allocates
        const uint32_t draw = !memory ? 0 : !first ? sim_choose(1 << 20) : sim::chance(600) ? sim_choose(4) : sim_choose(60);
        Str pristine;
        if (first)
        {
            if (apart) pristine = elsewhere(*s, f);
            k = 1 + draw;
            o1 = attempt(*s, *r1, f, k, persistent, fired);
            sim_trace("%s with allocation %u failing%s -> %s", op.name.c_str(), k, persistent ? " and all later ones" : "", sim::kind_name(o1.kind));
        }
        // with memory, on copies
        sim_alloc_arm(0, 0);
        const sim::Outcome o0 = sim::lib([&] { f(*ref, *r0); });
        const uint32_t allocations = sim_alloc_seen();
        const Str want = o0.ok() ? show(*r0) : Str();
        const std::vector<Str> after0 = show(*ref);
        sim_trace("%s -> %s %s, %u allocations", op.name.c_str(), sim::kind_name(o0.kind), sim::show(want).c_str(), allocations);
        if (apart && pristine != summary(o0, want, after0))
            sim::check_fail("failure-lingers", op.name + " gives another result after a failed attempt: " + sim::show(summary(o0, want, after0)) + " instead of " + sim::show(pristine));
        if (o0.kind == sim::BAD_ALLOC || o0.kind == sim::FOREIGN) sim::check_fail("spurious-failure", op.name + " ended with " + sim::kind_name(o0.kind) + " although memory was available");
        for (size_t i = 0; i < before.size(); ++i)
            if ((int)i != op.target && after0[i] != before[i]) sim::check_fail("operand-changed", op.name + " changed an operand it only reads, from " + sim::show(before[i]) + " to " + sim::show(after0[i]));

        if (first || (memory && allocations))
        {
            if (!first)
            {
                k = 1 + draw % allocations;
                o1 = attempt(*s, *r1, f, k, persistent, fired);
                sim_trace("  with allocation %u of %u failing%s -> %s", k, allocations, persistent ? " and all later ones" : "", sim::kind_name(o1.kind));
            }
            const std::vector<Str> after = show(*s);
            if (o1.kind == sim::FOREIGN) sim::check_fail("foreign-exception", op.name + " threw something that is not a standard exception");
            if (!fired)
            {
                if (o1.kind != o0.kind) sim::check_fail("unstable-result", op.name + " ended with " + sim::kind_name(o1.kind) + " this time and with " + sim::kind_name(o0.kind) + " before");
            }
            else ++stats.fired;
            if (o1.ok())
            {
                if (fired) ++stats.survived;
                if (!o0.ok()) sim::check_fail("error-hidden", op.name + " succeeded under failing allocations and fails with " + sim::kind_name(o0.kind) + " without");
                const Str got = show(*r1);
                if (got != want) sim::check_fail("wrong-result", op.name + " returned " + sim::show(got) + " when memory ran out instead of throwing; the result is " + sim::show(want));
                for (size_t i = 0; i < after.size(); ++i)
                    if (after[i] != after0[i]) sim::check_fail("wrong-result", op.name + " returned when memory ran out and left " + sim::show(after[i]) + " instead of " + sim::show(after0[i]));
            }
            else
            {
                if (fired) ++stats.threw;
                if (fired && o1.kind != sim::BAD_ALLOC && !(o1.kind == o0.kind) && o1.kind != sim::IOS) sim::check_fail("exhaustion-misreported", op.name + " reports exhausted memory as " + sim::kind_name(o1.kind) + " " + o1.what);
                for (size_t i = 0; i < after.size(); ++i)
                {
                    if (after[i] == before[i]) continue;
                    if ((int)i != op.target) sim::check_fail("operand-changed", op.name + " threw and changed an operand it only reads, from " + sim::show(before[i]) + " to " + sim::show(after[i]));
                    if (after[i] == after0[i]) continue;
                    if (op.piecewise && prefix(before[i], after[i]) && prefix(after[i], after0[i])) continue;
                    sim::check_fail("operand-damaged", op.name + " threw and left " + sim::show(after[i]) + "; it was " + sim::show(before[i]) + " and would have become " + sim::show(after0[i]));
                }
                // the same call with memory, wherever the failed one left the operands as they were
                if (after == before)
                {
                    Result* r2 = nullptr;
                    sim::lib([&] { r2 = new Result; });
                    const sim::Outcome o2 = sim::lib([&] { f(*s, *r2); });
                    if (o2.kind != o0.kind) sim::check_fail("retry-differs", op.name + " repeated with memory ends with " + sim::kind_name(o2.kind) + " instead of " + sim::kind_name(o0.kind) + " " + o2.what);
                    if (o2.ok() && show(*r2) != want) sim::check_fail("retry-differs", op.name + " repeated with memory gives " + sim::show(show(*r2)) + " instead of " + sim::show(want));
                    if (show(*s) != after0) sim::check_fail("retry-differs", op.name + " repeated with memory leaves another operand");
                    sim::lib([&] { delete r2; });
                }
            }
        }
        sim::lib([&] { delete r1; });
        // go on from the reference; the operands of the failed call are destroyed
        sim::lib([&] { delete s; delete r0; });
        s = ref;
    }
};

}  // namespace oom

#endif
