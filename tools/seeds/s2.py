COMMON = '''#include <cstdio>
#include <cstdlib>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
'''
F='include/fiction/algorithms/optimization/simulated_annealing.hpp'
SEEDS = [
 dict(id='B08', property='C06', file=F,
  edits=[('''        [&results, &init_temp, &final_temp, &cycles, &rand_state, &cost, &schedule, &next](const std::size_t index)
    { results[index] = simulated_annealing(rand_state(), init_temp, final_temp, cycles, cost, schedule, next); };''',
  '''        [&results, &init_temp, &final_temp, &cycles, &rand_state, &cost, &schedule, &next](const std::size_t& index)
    { results[index] = simulated_annealing(rand_state(), init_temp, final_temp, cycles, cost, schedule, next); };'''),
  ('''        threads.emplace_back(perform_simulated_annealing, i);''','''        threads.emplace_back([&perform_simulated_annealing, &i]() { perform_simulated_annealing(i); });''')],
  needs='a worker thread that starts only after the loop creating the workers has moved on',
  breaks='workers read the loop variable of the creating thread: races, results stored at the wrong or at an out-of-range place',
  demo=COMMON + '''#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <atomic>
int main() { for (int k = 0; k < 300; ++k) { std::atomic<int> n{0}; auto r = fiction::multi_simulated_annealing(2.0, 1.0, 1, 8, [&] { return n++; }, [](int) { return -5.0; }, [](double t) { return t - 1; }, [](int s) { return s; }); REQUIRE(r.second == -5.0); } return 0; }
''', flags='-fsanitize=thread'),
 dict(id='B09', property='C06', file=F,
  edits=[('''    for (auto& thread : threads)
    {
        thread.join();
    }

    // Find the minimum result
''', '''    for (std::size_t i = 0; i + 1 < threads.size(); ++i)
    {
        threads[i].join();
    }
    if (instances == 1)
    {
        threads.back().join();
    }
    else if (!threads.empty())
    {
        if (results.back().second == cost_t{})
        {
            threads.back().join();
        }
        else
        {
            threads.back().detach();
        }
    }

    // Find the minimum result
''')],
  needs='the last worker having stored its (nonzero) result when the others have been joined',
  breaks='the result of the last worker is polled without synchronisation and its thread may outlive the call',
  demo=COMMON + '''#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <atomic>
#include <chrono>
int main() { std::atomic<int> n{0}; auto r = fiction::multi_simulated_annealing(2.0, 1.0, 1, 3, [&] { return n++; }, [](int s) { if (s == 0) std::this_thread::sleep_for(std::chrono::milliseconds(200)); return -5.0 - s; }, [](double t) { return t - 1; }, [](int s) { return s; }); REQUIRE(r.second == -7.0); return 0; }
''', flags='-fsanitize=thread'),
]
