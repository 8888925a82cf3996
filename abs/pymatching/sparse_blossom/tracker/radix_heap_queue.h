// Contract stand-in for pm::radix_heap_queue, put first on the include path of the "contract queue" encodings only.
// Contract (discharged separately on the real header by the event-queue harnesses): dequeue returns a pending event of
// minimum cyclic time, most recently enqueued first among equal times, and moves cur_time to that event's time.
#ifndef PYMATCHING2_BUCKET_QUEUE_H
#define PYMATCHING2_BUCKET_QUEUE_H

#include <algorithm>
#include <array>
#include <bit>
#include <iostream>
#include <queue>
#include <vector>

#include "pymatching/sparse_blossom/ints.h"
#include "pymatching/sparse_blossom/tracker/cyclic.h"
#include "pymatching/sparse_blossom/tracker/flood_check_event.h"
#define SX_CONTRACT_QUEUE 1

namespace pm {
template <bool use_validation>
struct radix_heap_queue {
    std::vector<FloodCheckEvent> pending;
    std::vector<int64_t> full_time;
    pm::cumulative_time_int cur_time;
    size_t _num_enqueued;

    radix_heap_queue() : cur_time{0}, _num_enqueued(0) {
    }
    size_t size() const {
        return pending.size();
    }
    bool empty() const {
        return pending.empty();
    }
    void enqueue(FloodCheckEvent event) {
        int64_t delta = (uint32_t)(event.time.value - (uint32_t)cur_time);
        pending.push_back(event);
        full_time.push_back(cur_time + delta);
        _num_enqueued++;
    }
    bool satisfies_invariants() const {
        return true;
    }
    FloodCheckEvent dequeue() {
        if (pending.empty())
            return FloodCheckEvent(cyclic_time_int{0});
        size_t best = pending.size() - 1;
        for (size_t k = best; k-- > 0;) {
            if (full_time[k] < full_time[best])
                best = k;
        }
        FloodCheckEvent r = pending[best];
        cur_time = full_time[best];
        pending.erase(pending.begin() + best);
        full_time.erase(full_time.begin() + best);
        _num_enqueued--;
        return r;
    }
    std::vector<FloodCheckEvent> to_vector() const {
        return pending;
    }
    std::string str() const {
        return "";
    }
    void clear() {
        pending.clear();
        full_time.clear();
        _num_enqueued = 0;
    }
    void reset() {
        clear();
        cur_time = 0;
    }
};
template <bool use_validation>
std::ostream &operator<<(std::ostream &out, radix_heap_queue<use_validation> q) {
    return out;
}
}  // namespace pm
#endif
