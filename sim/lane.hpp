// Clocked lanes that deal a plan's operations to (cycle, phase) of their own clock.
#pragma once
#include "world_base.hpp"
#include "sparta/events/PayloadEvent.hpp"
namespace {
const SchedulingPhase DPH[] = {SchedulingPhase::PortUpdate, SchedulingPhase::Flush, SchedulingPhase::Collection, SchedulingPhase::Tick, SchedulingPhase::PostTick};

// one clocked node with a driver event per phase; ops are dealt to (cycle, phase)
template<class W> struct Lane {
    W * w; int id; sparta::Clock::Handle clk; std::unique_ptr<sparta::TreeNode> node; std::unique_ptr<sparta::EventSet> es;
    struct Act { Lane * l; std::unique_ptr<sparta::PhasedPayloadEvent<uint32_t>> ev; void fire(const uint32_t & i) { l->w->on_op(*l, i); } };
    std::vector<std::unique_ptr<Act>> acts;
    Lane(W * w_, int id_, sparta::Clock::Handle k) : w(w_), id(id_), clk(k) {
        node.reset(new sparta::TreeNode(w->rtn.get(), "n" + std::to_string(id), "n")); node->setClock(clk.get()); es.reset(new sparta::EventSet(node.get()));
        for (int p = 0; p < 5; ++p) { acts.emplace_back(new Act{this, {}}); Act * A = acts.back().get();
            A->ev.reset(new sparta::PhasedPayloadEvent<uint32_t>(es.get(), "act" + std::to_string(p), DPH[p], CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(Act, A, fire, uint32_t))); }
    }
    void at(uint64_t cyc, int ph, uint32_t i) { acts[ph % 5]->ev->preparePayload(i)->schedule(sparta::Clock::Cycle(cyc)); }
    uint64_t cycle() { return clk->currentCycle(); }
};
template<class B> void lanes_build(B & w, int n) {
    w.sched.reset(new sparta::Scheduler()); w.cm.reset(new sparta::ClockManager(w.sched.get())); w.rtn.reset(new sparta::RootTreeNode("dstroot"));
    w.clks.push_back(w.cm->makeRoot(w.rtn.get()));
    for (int i = 1; i < n; ++i) w.clks.push_back(w.cm->makeClock("c" + std::to_string(i), w.clks[0], (uint32_t)std::max<int64_t>(1, w.plan.c(("p" + std::to_string(i)).c_str(), 1)), (uint32_t)std::max<int64_t>(1, w.plan.c(("q" + std::to_string(i)).c_str(), 1))));
    w.cm->normalize(); w.rtn->setClock(w.clks[0].get());
    for (int i = 0; i < n; ++i) w.lanes.emplace_back(new typename std::decay<decltype(*w.lanes[0])>::type(&w, i, w.clks[i]));
}

} // namespace
