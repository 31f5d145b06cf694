"""Helpers for tools/seeds/*.py: demos that compile repository sources against the numeric stand-ins, copied beside the demo."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FSX = '''#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
[[noreturn]] inline void fsx_fail(const char* m) { printf("failed: %s\\n", m); exit(9); }
inline bool fsx_isfinite(double x) { return std::isfinite(x); }
'''
HEAD = '''#!/bin/bash
# builds demo.cpp against the current tree (numeric libraries replaced by the small stand-ins beside it) and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
'''
def shim():
    f = {n: open(f'{V}/rt/num/{n}').read() for n in os.listdir(V + '/rt/num')}; f['fsx.h'] = FSX; return f
def mp(solver, cpp, all=False):
    other = 'J="$J -I$d"' if all else ''
    demo = HEAD + f'''I=""; J=""; for d in $(find apps/multiphysics/src -type d \\( -name include -o -name src -o -name eos -o -name strength -o -name artificial_viscosity -o -name stress -o -name velocity -o -name temperature -o -name boundary_conditions -o -name fracture -o -name input -o -name common -o -name erosion \\) | sort); do case $d in */Solvers/{solver}/*) I="$I -I$d";; */Solvers/*) {other};; *) I="$I -I$d";; esac; done
g++ -std=c++17 -O1 -w -I"$D" -Iapps/multiphysics/src $I $J -Wl,--unresolved-symbols=ignore-all -o "$T/demo" "$D/demo.cpp" || exit 3
cd "$T" && ./demo
'''
    return demo, {**shim(), 'demo.cpp': cpp}
def micro(variant, cpp, srcs=''):
    v = f'apps/micromechanics/{variant}/src'
    demo = HEAD + f'''g++ -std=c++17 -O1 -w -I"$D" -I{v} -Wl,--unresolved-symbols=ignore-all -o "$T/demo" "$D/demo.cpp" {' '.join(v + '/' + s for s in srcs.split())} || exit 3
cd "$T" && ./demo
'''
    return demo, {**shim(), 'demo.cpp': cpp}
def yaml(cpp, legacy=True):
    d = 'legacy/Fierro_V0/src/Yaml-Serializable'
    demo = HEAD.replace(' (numeric libraries replaced by the small stand-ins beside it)', '') + (f'g++ -std=c++17 -O1 -w -I{d}/include -o "$T/demo" "$D/demo.cpp" {d}/src/*.cpp || exit 3\n' if legacy else 'g++ -std=c++17 -O1 -w -Iapps/multiphysics/src/input -o "$T/demo" "$D/demo.cpp" apps/multiphysics/src/input/Yaml.cpp || exit 3\n') + 'cd "$T" && timeout 60 ./demo\n'
    return demo, {'demo.cpp': cpp}
SRCS = {'SGH_solver_3D': 'boundary contact fracture energy_sgh force_sgh momentum position properties sgh_execute sgh_initialize sgh_setup time_integration', 'SGH_solver_rz': 'boundary_rz energy_sgh_rz force_sgh_rz momentum_rz position_rz properties_rz sgh_execute_rz sgh_initialize_rz sgh_setup_rz time_integration_rz'}
def whole(solver, body):
    return mp(solver, '#include "matar.h"\n#include "ELEMENTS.h"\n' + ''.join(f'#include "Solvers/{solver}/src/{f}.cpp"\n' for f in SRCS[solver].split()) + '#include "common/src/geometry_new.cpp"\n#include "solver.cpp"\n' + body)
RND = r'''
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
static uint64_t demo_s; static uint64_t demo_r() { demo_s ^= demo_s << 13; demo_s ^= demo_s >> 7; demo_s ^= demo_s << 17; return demo_s >> 11; }
inline int64_t fsx_int(const char*, int, int64_t lo, int64_t hi) { return lo + (int64_t)(demo_r() % (uint64_t)(hi - lo + 1)); }
inline double fsx_double(const char*, double lo, double hi) { return lo + (hi - lo) * (double)(demo_r() % 1000003) / 1000002.0; }
inline unsigned fsx_choose(unsigned n, const char*) { return (unsigned)(demo_r() % n); }
inline bool fsx_bool(const char*) { return demo_r() & 1; }
inline uint64_t fsx_concretize(uint64_t x) { return x; }
inline void fsx_assume(int c) { if (!c) _exit(0); }
inline void fsx_check(int c, const char* m) { if (!c) { printf("does not hold: %s\n", m); fflush(stdout); _exit(1); } }
inline void fsx_check_near(double a, double b, double tol, const char* m) { if (std::isnan(a) && !std::isnan(b)) _exit(0); if (!(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)))) { printf("does not hold: %s (%.12g, should be %.12g)\n", m, a, b); fflush(stdout); _exit(1); } }
inline void fsx_cover(const char*) {}
inline void fsx_tidy(uint64_t) {}
inline void fsx_obs_d(const char*, double) {}
inline void fsx_obs(const char*, uint64_t) {}
inline int fsx_symbolic() { return 0; }
inline int fsx_realmode() { return 0; }
inline void fsx_div0_infeasible() {}
inline void fsx_trace(const char*, uint64_t) {}
inline long fsx_param(const char*, long d) { return d; }
[[noreturn]] inline void fsx_end() { _exit(0); }
#define FSX_ENTRY extern "C" void
#define FSX_NATIVE 1
'''
# a demonstration that runs the property with many values: entries of a harness, each a number of times in a process of its own
def prop(solver, harness, entries, n=60, all=False):
    src = open(f'{V}/harness/{harness}').read(); f = {**shim()}; f['fsx.h'] = FSX.replace('printf("failed: %s\\n", m); exit(9)', 'printf("failed: %s\\n", m); exit(1)') + RND
    for h in os.listdir(V + '/harness'):
        if h.endswith('.h'): f[h] = open(f'{V}/harness/{h}').read()
    main = '\nint main() { for (int i = 0; i < %d; i++) { %s } return 0; }\n' % (n, ' '.join('{ fflush(stdout); pid_t p = fork(); if (!p) { demo_s = 0x9E3779B97F4A7C15ull * (i + 3); demo_r(); demo_r(); %s(); fflush(stdout); _exit(0); } int st = 0; waitpid(p, &st, 0); if (st) { printf("%s, run %%d: status %%d\\n", i, st); return 1; } }' % (e, e) for e in entries))
    demo, _ = mp(solver, '', all); return demo, {**f, 'demo.cpp': '#include "fsx.h"\n' + src + main}
