/* Specification scenarios: intrinsics of the static analyser.  None of this is
 * ever compiled into a program or executed; the scenarios are only parsed, and
 * the analyser derives what they require for every size and every value. */
#pragma once
#include <susa.h>
namespace V
{
std::size_t dim(const char* name);    /* an arbitrary size >= 1 */
std::size_t dim0(const char* name);   /* an arbitrary size >= 0 */
std::size_t idx(const char* name, std::size_t n); /* an arbitrary index < n */
template <class T> T any(const char* name);       /* an arbitrary value */
template <class T> T var(const char* name, T lo, T hi); /* an arbitrary value in [lo, hi] */
template <class T> T elem(const char* name, std::size_t i); /* element i of the arbitrary array `name` */
template <class T> void input(T& first, std::size_t n, const char* name); /* n elements starting at first are the array `name` */
void assume(bool);
void check(const char* label, bool c);
void misuse();                        /* from here on a failing assertion is the required outcome */
template <class A, class B> void eq(const char* label, const A& a, const B& b);
}
