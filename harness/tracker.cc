// Event queue, event tracker, cyclic and varying arithmetic.
#include <climits>
#include <stdexcept>
#include "scn.h"
#include "pymatching/sparse_blossom/flooder_matcher_interop/varying.h"
#include "pymatching/sparse_blossom/tracker/queued_event_tracker.h"
using namespace pm;

// ------------------------------------------------------------------------------------------------ event queue
static DetectorNode nodes_[8];
static FloodCheckEvent ev(int id, int64_t t) {
    return FloodCheckEvent(&nodes_[id], cyclic_time_int{(uint32_t)(uint64_t)t});
}
static int id_of(const FloodCheckEvent& e) {
    if (e.tentative_event_type != LOOK_AT_NODE)
        return -1;
    return (int)(e.data_look_at_node - nodes_);
}
static const int64_t BASES[] = {0, 1, 12345, (1LL << 31) - 2, (1LL << 31) + 5, (1LL << 32) - 3, (1LL << 32), (3LL << 31) - 1, (1LL << 34) - 1};
/// moves the queue's clock to the base by events at most 2^31-1 apart
static void advance(radix_heap_queue<false>& q, int64_t base) {
    int64_t t = 0;
    while (t < base) {
        int64_t h = std::min<int64_t>(base - t, (1LL << 31) - 1);
        t += h;
        q.enqueue(ev(7, t));
        auto e = q.dequeue();
        sx_assert(id_of(e) == 7 && e.time.value == (uint32_t)t, "single event not returned");
        sx_assert(q.cur_time == t, "clock is not at the time of the last event taken out");
    }
}
struct Model {
    bool in[8] = {};
    int64_t t[8] = {};
    int n = 0;
};
static void put(radix_heap_queue<false>& q, Model& m, int id, int64_t t) {
    q.enqueue(ev(id, t));
    m.in[id] = true;
    m.t[id] = t;
    m.n++;
    sx_assert((int64_t)q.size() == m.n, "size after insertion");
}
static int64_t take(radix_heap_queue<false>& q, Model& m) {
    auto e = q.dequeue();
    int k = id_of(e);
    sx_assert(k >= 0 && k < 8, "an event that was never inserted came out");
    sx_assert(m.in[k], "an event came out twice");
    sx_assert(e.time.value == (uint32_t)(uint64_t)m.t[k], "an event came out with a different time");
    for (int i = 0; i < 8; i++)
        if (m.in[i])
            sx_assert(m.t[k] <= m.t[i], "an event came out before an earlier one");
    m.in[k] = false;
    m.n--;
    sx_assert(q.cur_time == m.t[k], "clock is not at the time of the last event taken out");
    sx_assert((int64_t)q.size() == m.n, "size after removal");
    return m.t[k];
}
static void drained(radix_heap_queue<false>& q) {
    sx_assert(q.empty(), "queue not empty after every event came out");
    auto e = q.dequeue();
    sx_assert(e.tentative_event_type == NO_FLOOD_CHECK_EVENT, "an event came out of an empty queue");
}
static void queue_case(int64_t base, int k, int64_t hi) {
    radix_heap_queue<false> q;
    Model m;
    advance(q, base);
    for (int i = 0; i < k; i++)
        put(q, m, i, base + sx_int(nm("d", i).c_str(), 0, hi));
    for (int i = 0; i < k; i++)
        take(q, m);
    drained(q);
    sx_reach("end");
}
/// two events anywhere within the comparable half of the cycle
HARNESS(queue2) {
    queue_case(BASES[sx_choose("base", 0, 8)], 2, (1LL << 31) - 1);
}
HARNESS(queue3) {
    queue_case(BASES[sx_choose("base", 0, 8)], 3, TIER ? (1LL << 31) - 1 : 40);
}
HARNESS(queue3_far) {
    radix_heap_queue<false> q;
    Model m;
    int64_t base = BASES[sx_choose("base", 0, 8)];
    advance(q, base);
    int64_t off = (1LL << 31) - 40;
    for (int i = 0; i < 3; i++)
        put(q, m, i, base + off + sx_int(nm("d", i).c_str(), 0, 39));
    for (int i = 0; i < 3; i++)
        take(q, m);
    drained(q);
    sx_reach("end");
}
/// insertions and removals interleaved; each insertion is at or after the clock
HARNESS(queue_mix) {
    radix_heap_queue<false> q;
    Model m;
    int64_t base = BASES[sx_choose("base", 0, 8)];
    advance(q, base);
    int64_t H = TIER ? 40 : 8, now = base;
    put(q, m, 0, now + sx_int("d0", 0, H));
    put(q, m, 1, now + sx_int("d1", 0, H));
    now = take(q, m);
    put(q, m, 2, now + sx_int("d2", 0, H));
    if (sx_choose("three", 0, 1))
        put(q, m, 3, now + sx_int("d3", 0, H));
    now = take(q, m);
    put(q, m, 4, now + sx_int("d4", 0, H));
    while (m.n)
        now = take(q, m);
    drained(q);
    sx_reach("end");
}
/// clearing keeps nothing; resetting also puts the clock back to zero
HARNESS(queue_reset) {
    radix_heap_queue<false> q;
    Model m;
    int64_t base = BASES[sx_choose("base", 0, 8)];
    advance(q, base);
    put(q, m, 0, base + sx_int("d0", 0, 70));
    put(q, m, 1, base + sx_int("d1", 0, 70));
    take(q, m);
    bool full = sx_choose("reset", 0, 1);
    if (full)
        q.reset();
    else
        q.clear();
    sx_assert(q.empty() && q.size() == 0, "events remain after clearing");
    int64_t now = full ? 0 : q.cur_time;
    sx_assert(!full || q.cur_time == 0, "clock not zero after a reset");
    Model m2;
    put(q, m2, 2, now + sx_int("d2", 0, 70));
    put(q, m2, 3, now + sx_int("d3", 0, 70));
    take(q, m2);
    take(q, m2);
    drained(q);
    sx_reach("end");
}

// ------------------------------------------------------------------------------------------------ event tracker
/// Several requests, cancellations and look-ups on one tracked object. Oracle: the most recent request is served
/// exactly once, at exactly its time, unless cancelled or replaced; nothing else is served.
static void tracker_case(int nops, int64_t H, bool few_bases = false) {
    radix_heap_queue<false> q;
    QueuedEventTracker t;
    int64_t base = few_bases ? (sx_choose("base", 0, 1) ? (1LL << 32) - 3 : 0) : BASES[sx_choose("base", 0, 8)];
    advance(q, base);
    int64_t now = base;
    bool want = false;
    int64_t at = 0;
    auto pump_one = [&]() {
        // takes one event out, as the flooder does
        auto e = q.dequeue();
        if (e.tentative_event_type == NO_FLOOD_CHECK_EVENT) {
            sx_assert(!want, "a requested look is never served");
            return false;
        }
        int64_t te = q.cur_time;
        sx_assert(te >= now, "clock moved backwards");
        now = te;
        bool keep = t.dequeue_decision(e, q);
        if (keep) {
            sx_assert(want, "a look that is not wanted was served");
            sx_assert(te == at, "a look was served at another time than requested");
            sx_reach("served");
            want = false;
        } else {
            sx_assert(!want || at >= te, "a requested look was passed over");
        }
        return true;
    };
    for (int i = 0; i < nops; i++) {
        switch (sx_choose(nm("op", i).c_str(), 0, 2)) {
            case 0: {
                at = now + sx_int(nm("t", i).c_str(), 0, H);
                want = true;
                t.set_desired_event(ev(1, at), q);
                break;
            }
            case 1:
                t.set_no_desired_event();
                want = false;
                break;
            case 2:
                pump_one();
                break;
        }
        // redundant events are bounded: never more pending than requests made
        sx_assert((int64_t)q.size() <= i + 1, "more pending events than requests");
    }
    for (int i = 0; i < 2 * nops + 2; i++)
        if (!pump_one())
            break;
    sx_assert(q.empty(), "events keep being requeued");
    sx_assert(!want, "a requested look is never served");
    sx_reach("end");
}
HARNESS(tracker4) { tracker_case(4, 6); }
HARNESS(tracker5) { tracker_case(5, 6); }
HARNESS(tracker6) { tracker_case(6, TIER ? 6 : 3); }
/// requests far apart (up to the comparable half of the cycle)
HARNESS(tracker_far) { tracker_case(3, (1LL << 31) - 1, true); }
/// two objects share a queue
HARNESS(tracker_two) {
    radix_heap_queue<false> q;
    QueuedEventTracker t[2];
    bool want[2] = {};
    int64_t at[2] = {};
    int64_t base = BASES[sx_choose("base", 0, 8)];
    advance(q, base);
    int64_t now = base;
    auto pump = [&]() {
        auto e = q.dequeue();
        if (e.tentative_event_type == NO_FLOOD_CHECK_EVENT) {
            sx_assert(!want[0] && !want[1], "a requested look is never served");
            return false;
        }
        now = q.cur_time;
        int k = id_of(e);
        sx_assert(k == 0 || k == 1, "unknown event");
        if (t[k].dequeue_decision(e, q)) {
            sx_assert(want[k] && at[k] == now, "a look that is not wanted was served");
            want[k] = false;
        }
        for (int i = 0; i < 2; i++)
            sx_assert(!want[i] || at[i] >= now, "a requested look was passed over");
        return true;
    };
    for (int i = 0; i < (TIER ? 5 : 4); i++) {
        int k = sx_choose(nm("obj", i).c_str(), 0, 2);
        if (k == 2) {
            pump();
        } else {
            at[k] = now + sx_int(nm("t", i).c_str(), 0, 4);
            want[k] = true;
            t[k].set_desired_event(ev(k, at[k]), q);
        }
    }
    for (int i = 0; i < 14; i++)
        if (!pump())
            break;
    sx_assert(q.empty() && !want[0] && !want[1], "a requested look is never served");
    sx_reach("end");
}

// ------------------------------------------------------------------------------------------------ cyclic integers
template <typename T>
static void cyclic_case() {
    constexpr int64_t M = (int64_t)((uint64_t)(T)-1) + 1, HALF = M / 2;
    int64_t a = sx_int("a", 0, M - 1), b = sx_int("b", 0, M - 1);
    cyclic<T> x((T)a), y((T)b);
    // steps needed going up from a to b
    int64_t up = b >= a ? b - a : b - a + M;
    int op = sx_choose("op", 0, 9);
    if (op == 0) sx_assert((x < y) == (up >= 1 && up < HALF), "<");
    if (op == 1) sx_assert((x > y) == (up > HALF), ">");
    if (op == 2) sx_assert((x <= y) == (up < HALF), "<=");
    if (op == 3) sx_assert((x >= y) == (up == 0 || up > HALF), ">=");
    if (op == 4) {
        sx_assert((x == y) == (a == b), "==");
        sx_assert((x != y) == (a != b), "!=");
    }
    if (op == 5) {
        int64_t s = a + b;
        sx_assert((int64_t)(x + y).value == (s >= M ? s - M : s), "+");
        int64_t d = a - b;
        sx_assert((int64_t)(x - y).value == (d < 0 ? d + M : d), "-");
    }
    if (op == 6) {
        cyclic<T> p(x), q(x);
        ++p;
        --q;
        sx_assert((int64_t)p.value == (a + 1 == M ? 0 : a + 1), "++");
        sx_assert((int64_t)q.value == (a == 0 ? M - 1 : a - 1), "--");
        cyclic<T> r(x);
        auto old = r++;
        sx_assert((int64_t)old.value == a && r == p, "x++");
        old = r--;
        sx_assert(old == p && (int64_t)r.value == a, "x--");
    }
    if (op == 7) {
        cyclic<T> p(x);
        p += (T)b;
        int64_t s = a + b;
        sx_assert((int64_t)p.value == (s >= M ? s - M : s), "+=");
        cyclic<T> q(x);
        q -= (T)b;
        int64_t d = a - b;
        sx_assert((int64_t)q.value == (d < 0 ? d + M : d), "-=");
    }
    if (op == 8) {
        sx_assert((x == (T)b) == (a == b), "== plain");
        sx_assert((x != (T)b) == (a != b), "!= plain");
    }
    if (op == 9) sx_assert((int64_t)x.value == a, "value");
    sx_reach("end");
}
HARNESS(cyclic8) { cyclic_case<uint8_t>(); }
HARNESS(cyclic16) { cyclic_case<uint16_t>(); }
HARNESS(cyclic32) { cyclic_case<uint32_t>(); }
/// widening a wrapped time near a reference gives back the unwrapped time
template <typename T>
static void widen_case(int64_t ref_hi) {
    constexpr int64_t M = (int64_t)((uint64_t)(T)-1) + 1, HALF = M / 2;
    int64_t ref = sx_int("ref", 0, ref_hi), d = sx_int("delta", -(HALF - 1), HALF - 1);
    sx_assume(ref + d >= 0);
    int64_t t = ref + d;
    sx_assert(cyclic<T>(t).widen_from_nearby_reference(ref) == t, "widened time differs from the time that was wrapped");
    sx_reach("end");
}
HARNESS(widen8) { widen_case<uint8_t>(1 << 12); }
HARNESS(widen16) { widen_case<uint16_t>(1 << 20); }
HARNESS(widen32) { widen_case<uint32_t>(1LL << 40); }
/// order agrees with unwrapped order for times less than half a cycle apart
HARNESS(order32) {
    int64_t t = sx_int("t", 0, 1LL << 40), d = sx_int("d", 0, (1LL << 31) - 1);
    cyclic_time_int a(t), b(t + d);
    sx_assert((a < b) == (d > 0), "<");
    sx_assert(a <= b, "<=");
    sx_assert((b > a) == (d > 0), ">");
    sx_assert(b >= a, ">=");
    sx_assert((b <= a) == (d == 0), "<= reversed");
    sx_assert((a >= b) == (d == 0), ">= reversed");
    sx_reach("end");
}

// ------------------------------------------------------------------------------------------------ varying distances
template <typename T>
static void varying_case(int64_t W) {
    // f(t) = c + s t
    int64_t c = sx_int("c", -W, W), s = sx_choose("s", -1, 1), t = sx_int("t", -W, W), t2 = sx_int("t2", -W, W), off = sx_int("off", -W, W);
    auto v = Varying<T>::from_base_and_growth((T)c, (int8_t)s);
    int64_t ft = c + s * t;
    int op = sx_choose("op", 0, 11);
    switch (op) {
        case 0:
            sx_assert(v.get_distance_at_time((T)t) == ft, "distance at a time");
            sx_assert(v.y_intercept() == c, "intercept");
            break;
        case 1:
            sx_assert(v.is_growing() == (s == 1), "growing");
            sx_assert(v.is_shrinking() == (s == -1), "shrinking");
            sx_assert(v.is_frozen() == (s == 0), "frozen");
            break;
        case 2: {
            auto g = v.then_growing_at_time((T)t);
            sx_assert(g.is_growing() && !g.is_shrinking() && g.get_distance_at_time((T)t) == ft && g.get_distance_at_time((T)t2) == ft + (t2 - t),
                      "continues growing from the value at the change");
            break;
        }
        case 3: {
            auto g = v.then_shrinking_at_time((T)t);
            sx_assert(g.is_shrinking() && !g.is_growing() && g.get_distance_at_time((T)t) == ft && g.get_distance_at_time((T)t2) == ft - (t2 - t),
                      "continues shrinking from the value at the change");
            break;
        }
        case 4: {
            auto g = v.then_frozen_at_time((T)t);
            sx_assert(g.is_frozen() && g.get_distance_at_time((T)t2) == ft, "stays at the value at the change");
            break;
        }
        case 5: {
            auto p = v + (T)off, q = v - (T)off;
            sx_assert(p.get_distance_at_time((T)t) == ft + off && p.is_growing() == (s == 1) && p.is_shrinking() == (s == -1), "offset added");
            sx_assert(q.get_distance_at_time((T)t) == ft - off && q.is_growing() == (s == 1) && q.is_shrinking() == (s == -1), "offset subtracted");
            auto r = v;
            r += (T)off;
            sx_assert(r == p, "+=");
            r = v;
            r -= (T)off;
            sx_assert(r == q, "-=");
            break;
        }
        case 6: {
            if (s == 0) {
                bool threw = false;
                try {
                    v.time_of_x_intercept();
                } catch (const std::invalid_argument&) {
                    threw = true;
                }
                sx_assert(threw, "a constant has no crossing");
            } else {
                int64_t z = v.time_of_x_intercept();
                sx_assert(c + s * z == 0, "crossing of zero");
                sx_assert((s == 1 ? v.time_of_x_intercept_for_growing() : v.time_of_x_intercept_for_shrinking()) == z, "crossing of zero by slope");
                sx_assert((s == 1 ? v.get_growing_distance_at_time((T)t) : v.get_shrinking_distance_at_time((T)t)) == ft, "distance by slope");
            }
            break;
        }
        case 7: {
            // collisions of two balls: time at which distances add up to zero (times are always whole)
            int64_t c2 = sx_int("c2", -W, W), s2 = sx_choose("s2", -1, 1);
            auto v2 = Varying<T>::from_base_and_growth((T)c2, (int8_t)s2);
            sx_assert(v.colliding_with(v2) == (s + s2 > 0 && s >= 0 && s2 >= 0), "approach each other exactly when one grows and none shrinks");
            if (s >= 0 && s2 >= 0 && s + s2 > 0) {
                int64_t z = v.time_of_x_intercept_when_added_to(v2);
                int64_t at = c + s * z + c2 + s2 * z;
                if (s + s2 == 1) {
                    sx_assert(at == 0, "meeting time, one moving");
                    sx_assert(v.time_of_x_intercept_when_added_to_giving_unit_slope(v2) == z, "meeting time, one moving");
                } else {
                    sx_assert(at == 0 || at == -1, "meeting time, both moving");
                }
            }
            break;
        }
        case 8: {
            auto g = Varying<T>::growing_varying_with_zero_distance_at_time((T)t);
            sx_assert(g.is_growing() && g.get_distance_at_time((T)t) == 0 && g.get_distance_at_time((T)t2) == t2 - t, "starts growing at zero");
            break;
        }
        case 9: {
            auto g = Varying<T>::growing_value_at_time((T)c, (T)t), h = Varying<T>::shrinking_value_at_time((T)c, (T)t);
            sx_assert(g.is_growing() && g.get_distance_at_time((T)t) == c && g.get_distance_at_time((T)t2) == c + t2 - t, "growing through a value");
            sx_assert(h.is_shrinking() && h.get_distance_at_time((T)t) == c && h.get_distance_at_time((T)t2) == c - (t2 - t), "shrinking through a value");
            auto f = Varying<T>::frozen((T)c);
            sx_assert(f.is_frozen() && f.get_distance_at_time((T)t) == c, "frozen at a value");
            break;
        }
        case 10: {
            int64_t c2 = sx_int("c2", -W, W), s2 = sx_choose("s2", -1, 1);
            auto v2 = Varying<T>::from_base_and_growth((T)c2, (int8_t)s2);
            sx_assert((v == v2) == (c == c2 && s == s2), "==");
            sx_assert((v != v2) == !(c == c2 && s == s2), "!=");
            break;
        }
        case 11: {
            // a history of three changes
            int64_t t3 = sx_int("t3", -W, W);
            int k1 = sx_choose("k1", -1, 1), k2 = sx_choose("k2", -1, 1);
            auto step = [](Varying<T> x, int k, int64_t at) {
                return k == 1 ? x.then_growing_at_time((T)at) : k == -1 ? x.then_shrinking_at_time((T)at) : x.then_frozen_at_time((T)at);
            };
            auto g = step(step(v, k1, t), k2, t2);
            sx_assert(g.get_distance_at_time((T)t3) == ft + k1 * (t2 - t) + k2 * (t3 - t2), "distance after two changes");
            break;
        }
    }
    sx_reach("end");
}
HARNESS(varying32) { varying_case<int32_t>(1 << 25); }
HARNESS(varying64) { varying_case<int64_t>(1LL << 45); }
