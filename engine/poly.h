// Normal form of exact-real terms: quotients of polynomials over Q, reduced modulo the defining relations of
// square roots (r*r = radicand), sines (s*s = 1 - c*c) and equated variables; and interval bounds from variable ranges.
#pragma once
#include "expr.h"
enum PolyKind { PK_SQRT, PK_SIN, PK_ALIAS };
void polyRelate(E var, PolyKind k, E arg);          // declares the relation of an auxiliary variable
void polyRange(E var, double lo, double hi);        // declares an invariant range of a variable
bool polyIsZero(E e);                               // e == 0 follows from the relations alone
int polySign(E e);                                  // 1: e>0, -1: e<0, 0: e==0, 2: e>=0, -2: e<=0, 9: not determined by the ranges
bool polyWithin(E e, double tol);                   // |e| <= tol over the declared ranges
E polySimplify(E e);                                // an equal term in normal form when that is small, else e itself
E polyCanon(E e);                                   // an equal term in normal form, the same for equal terms, or e itself when that is large
E polyRoot(E e);                                    // a term whose square is e, or none
extern unsigned long g_polyCalls; extern double g_polySecs;
