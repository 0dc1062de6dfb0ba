"""Which harnesses decide which property."""
CHECKS = {}
A_HDR = 'harness compiled from the headers of /repo with g++ -std=c++20'


NOT_YET = {}
ENUM = 'explicit-state model checking of the real code: exhaustive enumeration of all inputs and operation histories within the stated bounds against an independent oracle'
N_ENUM = ('Every execution within the bounds in the evidence file is run on the code compiled from /repo (address and undefined-behaviour sanitizers on) '
          'and compared with an independently written oracle; nothing is claimed beyond the bounds. Trusts the oracle, g++ and the sanitizers.')


def prop(pid, *harnesses, level='model_checking', assumptions=(), technique=ENUM, note=N_ENUM):
    CHECKS[pid] = dict(harnesses=list(harnesses), level=level, assumptions=[A_HDR] + list(assumptions), technique=technique, note=note)


def H(name, *src, **kw):
    return dict(name=name, src=list(src) or [name + '.cpp'], link=kw.pop('link', []) + ['-lfmt', '-pthread'], **kw)


prop('C01', H('c01'))
prop('C02', H('c02'))
prop('C03', H('c03'))
prop('C04', H('c04'))
prop('C05', H('c05'))
CONC = dict(san=False, opt='1', cflags=['-fsanitize=thread', '-g1'], plain=['sched.cpp'], link=['-ldl', '-rdynamic'])
SCHED = 'stateless model checking of the real code: a controlled scheduler enumerates all schedules up to a preemption bound, with vector-clock race detection on every access'
N_SCHED = ('Every schedule within the preemption bound is executed on the code compiled from /repo; scheduling points are thread, mutex, condition, future and atomic operations '
           'and the callbacks. Races are judged by happens-before on instrumented accesses, so behaviours of race-free code between those points are covered; weak memory beyond happens-before is not modelled. '
           'Trusts lib/sched.cpp and the compiler instrumentation.')
prop('C06', H('c06', 'c06.cpp', '@VERIF@/lib/sched.cpp', **CONC), technique=SCHED, note=N_SCHED)
prop('C07', H('c07'))
prop('C08', H('c08'))
prop('C09', H('c09'))
prop('C10', H('c10'))
prop('C11', H('c11'))
prop('C12', H('c12', limit=15))
prop('C13', H('c13', 'c13.cpp', '@REPO@/vendors/graph-coloring/Source/*.cpp', limit=20))
prop('C14', H('c14'))
SI = ['@VERIF@/standin']
A_SI = 'third-party headers that are not installed (mockturtle, kitty, phmap, bill, tinyxml2) are replaced by the stand-ins in standin/, validated with the repository\'s own unit tests (DESIGN.md)'
def L(name, *src, **kw):
    return H(name, *src, inc_first=SI + kw.pop('inc_first', []), **dict(kw))
def lprop(pid, *h, **kw):
    prop(pid, *h, assumptions=[A_SI] + list(kw.pop('assumptions', [])), **kw)


lprop('C15', L('c15'))
lprop('C16', L('c16'))
lprop('C17', L('c17'))
lprop('C18', L('c18'))
lprop('C19', L('c19'))
lprop('C20', L('c20'))
lprop('C33', L('c33'))
lprop('C34', L('c34', 'c34.cpp', 'c34_defects.cpp', 'c34_offset.cpp', 'c34_cube.cpp'), L('c34c', 'c34c.cpp', '@VERIF@/lib/sched.cpp', **CONC),
      technique=ENUM + '; multithreaded runs: ' + SCHED, note=N_ENUM + ' ' + N_SCHED)
lprop('C29', L('c29'))
lprop('C30', L('c30'))
lprop('C31', L('c31'))
lprop('C41', L('c41'))
prop('C43', H('c43'))
lprop('C26', L('c26'))
lprop('C28', L('c28'))
lprop('C27', L('c27'))
lprop('C21', L('c21'))
lprop('C24', L('c24'))
lprop('C35', L('c35'), L('c35c', 'c35c.cpp', '@VERIF@/lib/sched.cpp', **CONC), technique=ENUM + '; multithreaded runs: ' + SCHED, note=N_ENUM + ' ' + N_SCHED)
lprop('C42', L('c42'))
lprop('C38', L('c38'))
