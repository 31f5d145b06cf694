import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); import seedlib
id = 'rot_small'; property = 'M03'
edits = [('apps/micromechanics/LS-EVPFFT/src/orient.cpp', 'if (snorm > 1.0E-06) goto label_97;', 'if (snorm > 1.0E-01) goto label_97;')]
demo, files = seedlib.micro('LS-EVPFFT', r'''
#include <cstdio>
#include "matar.h"
#include "orient.cpp"
int main() { int bad = 0; for (double w : {0.5, 0.2, 0.09, 0.05, 0.01}) { double a[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1}, c[9] = {0, -w, 0, w, 0, 0, 0, 0, 0}; orient(a, c); double e = std::fabs(std::fabs(a[1]) - std::sin(w)); printf("angle %g: %g %g\n", w, a[1], std::sin(w)); if (e > 1e-9) bad = 1; } return bad; }
''')
needs = 'a rotation increment of less than 0.1 rad but not negligible'
what = 'the orientation is turned by far less than the increment'
