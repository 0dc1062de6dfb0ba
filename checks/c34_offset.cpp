// C34: exact simulators on other coordinate systems.
#define MC_NO_MAIN
#include "c34.hpp"
template <class L> static void coordinates(mc::ctx& c)
{
    sidb::model m;
    m.s = sidb::ordered<L>(pick(c, 8, 3));
    m.p = PH[c.choose(2)];
    env e;
    m.ext.assign(m.s.size(), 0.0);
    if (c.flip()) e.dot = 0, e.local = -0.4, m.ext[0] = -0.4;
    all_engines(c, sidb::layout<L>(m.s), m, e, name(m));
}
MC_MODEL(offset_coordinates, "all sets of 1-3 dots out of 8 sites, offset coordinates without a lattice type, 2 parameter sets, with and without a local potential", 8) { coordinates<offs>(c); }
