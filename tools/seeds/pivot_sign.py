import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'pivot_sign'; property = 'M01'
edits = [('apps/micromechanics/EVPFFT/src/math_functions.cpp', 'if (fabs(A[j * n + i]) > fabs(A[pivotRow * n + i])) {', 'if (A[j * n + i] > A[pivotRow * n + i]) {')]
demo, files = seedlib.micro('EVPFFT', r'''
#include <cstdio>
#include "matar.h"
#include "math_functions.cpp"
int main() { double A[4] = {0, 1, -1, 0}, b[2] = {2, 3}; int r = solve_linear_system(A, b, 2); printf("rc %d x %g %g\n", r, b[0], b[1]); return r != 0 || b[0] != -3 || b[1] != 2; }
''')
needs = 'a zero pivot with only negative entries below it'
what = 'a regular system is reported singular'
