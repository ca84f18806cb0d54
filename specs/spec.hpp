// Statements of the reference models. These functions have no bodies: the analysis gives them their meaning.
#pragma once
namespace spec
{
template <class A, class B>
void same(const char * name, const A & repo, const B & reference);   // equal for all inputs
void holds(const char * name, bool c);
void no_throw(const char * name);      // the driver ends without an exception or abort
void assume(bool c);
void positive(double x);               // sign of an input
void positive(int x);
void positive(unsigned long x);
template <class A> A & snapshot(const A & a);          // a copy of the value it has now
double any_real(const char * name, ...);   // arbitrary but fixed value, a function of the arguments
unsigned long any_index(const char * name, ...);
bool any_bool(const char * name, ...);
}
using spec::same;
using spec::holds;
using spec::assume;
using spec::positive;
