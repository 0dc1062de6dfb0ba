// Stand-in for bill (lsils/bill): one small, deterministic, complete CDCL solver behind every engine tag.
#pragma once
#include "interface/common.hpp"
#include "interface/types.hpp"
#include <algorithm>
#include <stdexcept>
namespace bill
{
template <solvers S>
class solver
{
  public:
    var_type add_variable()
    {
        const auto v = static_cast<var_type>(val.size());
        val.push_back(2);
        level.push_back(0);
        reason.push_back(-1);
        phase.push_back(1);
        act.push_back(0);
        watches.emplace_back();
        watches.emplace_back();
        return v;
    }
    void     add_variables(uint32_t n) { while (n--) add_variable(); }
    uint32_t num_variables() const { return static_cast<uint32_t>(val.size()); }
    uint32_t num_clauses() const { return static_cast<uint32_t>(clauses.size()); }
    void     add_clause(lit_type l) { add_clause(std::vector<lit_type>{l}); }
    void     add_clause(const std::vector<lit_type>& in)
    {
        backtrack(0);
        std::vector<uint32_t> c;
        for (auto l : in)
        {
            if (l.variable() >= val.size()) { throw std::logic_error("bill stand-in: clause over an unknown variable"); }
            c.push_back(l.raw());
        }
        std::sort(c.begin(), c.end());
        c.erase(std::unique(c.begin(), c.end()), c.end());
        for (size_t i = 1; i < c.size(); ++i) if (c[i] == (c[i - 1] ^ 1)) return;
        std::vector<uint32_t> d;
        for (auto l : c)
        {
            const auto x = lv(l);
            if (x == 0) return;  // satisfied at level 0
            if (x == 2) d.push_back(l);
        }
        if (d.empty()) { unsat = true; return; }
        if (d.size() == 1) { enqueue(d[0], -1); if (propagate() >= 0) unsat = true; return; }
        attach(std::move(d));
    }
    result::states solve(const std::vector<lit_type>& assumptions = {}, uint32_t = 0)
    {
        backtrack(0);
        model_.clear();
        if (unsat || propagate() >= 0) { unsat = true; return result::states::unsatisfiable; }
        for (;;)
        {
            const int confl = propagate();
            if (confl >= 0)
            {
                if (lim.empty()) { unsat = true; return result::states::unsatisfiable; }
                if (lim.size() <= assumptions.size() && assumptions_conflict(assumptions)) return result::states::unsatisfiable;
                std::vector<uint32_t> learnt;
                const auto            bt = analyze(confl, learnt);
                backtrack(bt);
                if (learnt.size() == 1) enqueue(learnt[0], -1);
                else { const auto l0 = learnt[0]; const int ci = attach(std::move(learnt)); enqueue(l0, ci); }
                continue;
            }
            if (lim.size() < assumptions.size())
            {
                const auto a = assumptions[lim.size()].raw();
                const auto x = lv(a);
                if (x == 1) { backtrack(0); return result::states::unsatisfiable; }
                lim.push_back(trail.size());
                if (x == 2) enqueue(a, -1);
                continue;
            }
            int best = -1;
            for (size_t v = 0; v < val.size(); ++v)
                if (val[v] == 2 && (best < 0 || act[v] > act[best])) best = static_cast<int>(v);
            if (best < 0)
            {
                model_.resize(val.size());
                for (size_t v = 0; v < val.size(); ++v) model_[v] = val[v] == 0 ? lbool_type::true_ : lbool_type::false_;
                backtrack(0);
                return result::states::satisfiable;
            }
            lim.push_back(trail.size());
            enqueue((static_cast<uint32_t>(best) << 1) | phase[best], -1);
        }
    }
    result get_model() const { return model_.empty() && !val.empty() ? result{result::states::unsatisfiable, {}} : result{result::states::satisfiable, model_}; }
    result get_result() const { return get_model(); }
    void   restart() { *this = solver{}; }

  private:
    // values: 0 literal/variable true, 1 false, 2 undefined
    int  lv(uint32_t l) const { const auto v = val[l >> 1]; return v == 2 ? 2 : (v ^ static_cast<int>(l & 1)); }
    bool assumptions_conflict(const std::vector<lit_type>&) const { return true; }
    void enqueue(uint32_t l, int r)
    {
        val[l >> 1]    = static_cast<int>(l & 1);
        level[l >> 1]  = static_cast<int>(lim.size());
        reason[l >> 1] = r;
        trail.push_back(l);
    }
    int attach(std::vector<uint32_t> c)
    {
        const int i = static_cast<int>(clauses.size());
        watches[c[0]].push_back(i);
        watches[c[1]].push_back(i);
        clauses.push_back(std::move(c));
        return i;
    }
    int propagate()
    {
        while (qhead < trail.size())
        {
            const uint32_t f  = trail[qhead++] ^ 1;
            auto&          ws = watches[f];
            size_t         j  = 0;
            for (size_t i = 0; i < ws.size(); ++i)
            {
                auto& c = clauses[ws[i]];
                if (c[0] == f) std::swap(c[0], c[1]);
                if (lv(c[0]) == 0) { ws[j++] = ws[i]; continue; }
                bool moved = false;
                for (size_t k = 2; k < c.size(); ++k)
                    if (lv(c[k]) != 1)
                    {
                        std::swap(c[1], c[k]);
                        watches[c[1]].push_back(ws[i]);
                        moved = true;
                        break;
                    }
                if (moved) continue;
                ws[j++] = ws[i];
                if (lv(c[0]) == 1)
                {
                    const int ci = ws[i];
                    for (++i; i < ws.size(); ++i) ws[j++] = ws[i];
                    ws.resize(j);
                    qhead = trail.size();
                    return ci;
                }
                enqueue(c[0], ws[i]);
            }
            ws.resize(j);
        }
        return -1;
    }
    size_t analyze(int confl, std::vector<uint32_t>& out)
    {
        std::vector<char> seen(val.size(), 0);
        out.assign(1, 0);
        int      open = 0;
        size_t   idx  = trail.size();
        uint32_t p    = 0;
        bool     first = true;
        int      c = confl;
        do
        {
            for (auto q : clauses[c])
            {
                if (!first && q == p) continue;
                const auto v = q >> 1;
                if (seen[v] || level[v] == 0) continue;
                seen[v] = 1;
                act[v] += inc;
                if (level[v] == static_cast<int>(lim.size())) ++open; else out.push_back(q);
            }
            first = false;
            while (!seen[trail[--idx] >> 1]) {}
            p = trail[idx];
            seen[p >> 1] = 0;
            c = reason[p >> 1];
            --open;
        } while (open > 0);
        out[0] = p ^ 1;
        inc *= 1.05;
        if (inc > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; }
        size_t bt = 0;
        for (size_t i = 1; i < out.size(); ++i)
            if (static_cast<size_t>(level[out[i] >> 1]) > bt) { bt = level[out[i] >> 1]; std::swap(out[1], out[i]); }
        return bt;
    }
    void backtrack(size_t l)
    {
        if (lim.size() <= l) return;
        while (trail.size() > lim[l])
        {
            const auto t = trail.back();
            trail.pop_back();
            phase[t >> 1] = t & 1;
            val[t >> 1]   = 2;
        }
        lim.resize(l);
        qhead = trail.size();
    }
    std::vector<int>                   val{}, level{}, reason{};
    std::vector<uint32_t>              phase{};
    std::vector<double>                act{};
    double                             inc{1.0};
    std::vector<std::vector<int>>      watches{};
    std::vector<std::vector<uint32_t>> clauses{};
    std::vector<uint32_t>              trail{};
    std::vector<size_t>                lim{};
    size_t                             qhead{0};
    bool                               unsat{false};
    result::model_type                 model_{};
};
}  // namespace bill
