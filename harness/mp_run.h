// What every solver's run loop (…_execute.cpp) is checked against: its steps are taken by stand-ins that do what the checks of the
// steps themselves (P02 to P16) state, with steps in time and forces that can be anything.
#pragma once
#include "matar.h"
#include "ELEMENTS.h"
using namespace mtr;
#define FIERRO_IO_H
#include "state.hpp"
#include "simulation_parameters.hpp"
#include "region.hpp"
#include "string_utils.hpp"
#include <map>
#include <memory>
#include <vector>
#include <string>
#include <chrono>
// the wall clock only times the run
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept { return time_point(); }
static const double TOL = 1e-9;
static double sd(const char* n, double lo = -10, double hi = 10) { return fsx_double(n, lo, hi); }
static void near(double a, double b, const char* m) { fsx_check_near(a, b, TOL, m); }
// The course of time in a run.
struct Clock { double start, final, ival, dt_max, dt_start, tiny = 1e-12, now; long stop, every, mats; std::vector<std::vector<double>> cand; std::vector<double> dts; double in = 0, last_in = 0, last_out = -1; long outs = 0, cycles = 0; bool one = false, over = false, wrote = false, given = false;
  template <class P> void init(P& p, Solver& s, long n_mats, double t0, long max_cycles, bool iter) { mats = n_mats; now = start = s.time_start = t0; final = s.time_end = t0 + sd("duration", 0.3, 2); ival = sd("interval", 0.3, 3); stop = max_cycles; every = iter ? 2 : 2000000; dt_max = 5; dt_start = 0.125; auto& d = p.dynamic_options; d.cycle_stop = stop; d.dt_max = dt_max; d.dt_min = 0.01; d.dt_start = dt_start; d.dt_cfl = 0.4; d.time_final = final + 5; d.time_initial = t0 - 1; p.output_options.graphics_time_step = ival; p.output_options.graphics_iteration_step = every; s.solver_id = 0; }
  // a material's step: anything within the limits of P04, P10, P13 and P16
  double step(long mat, double time, double graphics, double fin, double dmax, double din, double tin) { near(time, now, "a step starts where the last one ended"); near(fin, final, "the run goes to its final time"); near(dmax, dt_max, "steps keep to the maximum asked for"); near(tin, tiny, "steps keep to the limits asked for"); fsx_check(graphics <= last_out + ival + TOL && graphics > time - TOL, "no step passes the time of the next output"); double want = cycles == 0 ? dt_start : wrote ? last_in : dts.back(); near(din, want, "the last step is kept, but for the one cut for an output"); in = want; double c = one && mat ? 1.0 : sd("step", 0.2, 1), g = graphics - time, f = final - time; g = (g > 1e-16 ? g : 1e-16) + tiny; if (g < c) c = g; if (f + tiny < c) c = f + tiny; if (dt_max < c) c = dt_max; if (!given) { cand.push_back({}); given = true; } cand.back().push_back(c); (void)mat; return c; }
  // the step all materials can take
  double dt() { fsx_check(given && (long)cand.back().size() == mats, "every material limits the step"); double r = dt_max; for (double c : cand.back()) r = fmin(c, r); return r; }
  // the end of a cycle (known when the next one starts, a file is written or the run ends)
  void end() { if (!given) return; given = false; given = true; double d = dt(); given = false; dts.push_back(d); last_in = in; now += d; cycles++; fsx_check(!over, "the run stops at its final time"); over = now >= final; wrote = false; due = cycles == stop || over || (cycles % every == 0 && cycles > 1) || now >= last_out + ival + TOL; early = now < last_out + ival - TOL && !due; }
  bool due = false, early = false;
  void next() { fsx_check(cycles == 0 || !due || wrote, "every output that is due is written"); due = false; }
  void out(double time) { end(); near(time, now, "an output has the time of its state"); if (outs == 0) { fsx_check(cycles == 0, "the initial state is written"); last_out = now; outs++; return; } fsx_check(!wrote && !early, "outputs are not written before they are due"); wrote = true; last_out = now; outs++; fsx_cover(over ? "output at the end" : "output"); }
  void finish() { end(); fsx_check(outs >= 1 && (!due || wrote), "every output that is due is written"); fsx_check(over || cycles == stop, "a run ends at its final time or number of cycles"); fsx_check(now <= final + 3 * tiny || cycles == 0, "a run does not pass its final time"); fsx_cover(over ? "final time" : "last cycle"); } };
static Clock clk;
static void fsx_written(State_t& S, double dt, double time, size_t id);
struct MeshWriter { void write_mesh(swage::Mesh& mesh, State_t& S, SimulationParameters_t& P, double dt, double time, CArray<double> times, std::vector<node_state> ns, std::vector<gauss_pt_state> gs, std::vector<material_pt_state> ms, const size_t id) { clk.out(time); fsx_written(S, dt, time, id); } };
