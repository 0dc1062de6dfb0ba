COMMON = '''#include <cstdio>
#include <cstdlib>
#define REQUIRE(x) do { if (!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while (0)
'''
SEEDS = [
 dict(id='B01', property='C01', file='include/fiction/layouts/coordinates.hpp',
  edits=[('''return coord_t{x - other.x, y - other.y - static_cast<decltype(y)>(!z && other.z), z - other.z};''',
          '''return coord_t{x - other.x, y - other.y - static_cast<decltype(y)>(z ^ other.z), z - other.z};''')],
  needs='a difference of two SiQAD coordinates whose minuend is on the upper and whose subtrahend is on the lower sublattice',
  breaks='the borrow of the SiQAD difference is also taken when none is needed, so (a - b) + b differs from a',
  demo=COMMON + '''#include <fiction/layouts/coordinates.hpp>
using fiction::siqad::coord_t;
int main() { for (int z = 0; z < 2; ++z) for (int w = 0; w < 2; ++w) { coord_t a{3, 4, z}, b{1, 2, w}; REQUIRE((a - b) + b == a); } return 0; }
'''),
 dict(id='B02', property='C02', file='include/fiction/layouts/coordinates.hpp',
  edits=[('''            if (z == 1)
            {
                *this = aspect_ratio.get_dead();''', '''            if (z == 1 || aspect_ratio.x == 0)
            {
                *this = aspect_ratio.get_dead();''')],
  needs='iteration over a box of width one with two layers (offset coordinates)',
  breaks='boxes that are a single column wide lose their upper layer when iterated',
  demo=COMMON + '''#include <fiction/layouts/coordinates.hpp>
using C = fiction::offset::ucoord_t;
int main() { for (int x = 0; x < 3; ++x) { C box{x, 2, 1}; fiction::coord_iterator<C> it{box, C{0, 0, 0}}; int n = 0; while (!(*it).is_dead() && n < 100) { ++n; ++it; } REQUIRE(n == (x + 1) * 3 * 2); } return 0; }
'''),
 dict(id='B03', property='C04', file='include/fiction/algorithms/iter/gray_code_iterator.hpp',
  edits=[('''        --current_iteration;

        binary_to_gray();''', '''        --current_iteration;

        current_gray_code ^= uint64_t{1} << ((current_iteration & 1u) == 0u ? 0u : 1u);''')],
  needs='a decrement past a position whose number is divisible by four',
  breaks='decrementing flips the wrong bit at every fourth position, so the code no longer belongs to the position',
  demo=COMMON + '''#include <fiction/algorithms/iter/gray_code_iterator.hpp>
int main() { fiction::gray_code_iterator it{9}; for (int i = 8; i >= 0; --i) { --it; REQUIRE(*it == (unsigned long)(i ^ (i >> 1))); } return 0; }
'''),
 dict(id='B04', property='C05', file='include/fiction/algorithms/optimization/simulated_annealing.hpp',
  edits=[('''                best_state    = new_state;
                best_cost     = new_cost;
                current_state = std::move(new_state);
                current_cost  = std::move(new_cost);

                continue;''', '''                current_state = std::move(new_state);
                current_cost  = std::move(new_cost);
                best_state    = new_state;
                best_cost     = new_cost;

                continue;''')],
  needs='a state type whose moved-from value differs from its value (any container)',
  breaks='the best state is copied from a moved-from object: the returned state is not the one with the returned cost',
  demo=COMMON + '''#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <vector>
int main() { using S = std::vector<int>; auto r = fiction::simulated_annealing(S{9, 9, 9}, 10.0, 1.0, 5, [](const S& s) { double c = 0; for (int x : s) c += x; return c; }, [](double t) { return t - 1; }, [](S s) { if (!s.empty() && s[0] > 0) --s[0]; return s; });
 double c = 0; for (int x : r.first) c += x; REQUIRE(r.first.size() == 3 && c == r.second); return 0; }
'''),
 dict(id='B05', property='C07', file='vendors/combinations/combinations.h',
  edits=[('''            if (f())
                return true;
            swap(*f2, *f3);
            if (f())
                return true;
            swap(*first1, *f3);
        }
        break;''', '''            if (f())
                return true;
            swap(*f2, *f3);
            if (f())
                return true;
            swap(*first1, *f2);
        }
        break;''')],
  needs='a permutation visitor over exactly three elements that runs to completion',
  breaks='after visiting all permutations of three elements the sequence is left reordered',
  demo=COMMON + '''#include <combinations.h>
#include <vector>
int main() { std::vector<int> v{1, 2, 3}; int n = 0; combinations::for_each_permutation(v.begin(), v.end(), v.end(), [&](auto, auto) { ++n; return false; }); REQUIRE(n == 6); REQUIRE((v == std::vector<int>{1, 2, 3})); return 0; }
'''),
 dict(id='B06', property='C09', file='include/fiction/utils/map_utils.hpp',
  edits=[('''return std::abs(pair.first - key) < tolerance;''', '''return std::abs(pair.first - key) < tolerance * std::abs(key);''')],
  needs='a key of magnitude below one (such as zero)',
  breaks='the tolerance becomes relative, so small keys are not found any more',
  demo=COMMON + '''#include <fiction/utils/map_utils.hpp>
#include <map>
int main() { std::map<double, int> m{{0.0, 1}, {0.001, 2}}; REQUIRE(fiction::find_key_with_tolerance(m, 0.0) != m.end()); REQUIRE(fiction::find_key_with_tolerance(m, 0.001 + 5e-7) != m.end()); return 0; }
'''),
 dict(id='B07', property='C12', file='include/fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp',
  edits=[('''while (potential_for_given_distance > potential)''', '''while (potential_for_given_distance >= potential)''')],
  needs='a potential that is exactly the potential at a distance of the grid',
  breaks='when the potential at a grid distance equals the given one exactly, the next larger distance is returned: no longer the smallest',
  demo=COMMON + '''#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
int main() { fiction::sidb_simulation_parameters p{}; const double d = 0.1; const double v = p.k() * p.epsilon_r / p.epsilon_r / (d * 1e-9) * std::exp(-d / p.lambda_tf) * fiction::constants::physical::ELEMENTARY_CHARGE;
 REQUIRE(fiction::potential_to_distance_conversion(v, p, 1) < 0.15); return 0; }
'''),
 dict(id='B08', property='C14', file='vendors/undirected_graph/source/undirected_graph.h',
  edits=[],
  needs='', breaks=''),
]
SEEDS = [s for s in SEEDS if s['edits']]
