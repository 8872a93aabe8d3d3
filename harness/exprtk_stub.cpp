// exprtk is not installed: expression initialisers are not exercised, and say so if they are
#include "DNDS/ExprtkWrapper.hpp"
#include <cstdio>
#include <cstdlib>
namespace DNDS
{
    void ExprtkWrapperEvaluator::Compile(const std::string &) { fprintf(stderr, "exprtk stub called\n"), abort(); }
    real ExprtkWrapperEvaluator::Evaluate() { fprintf(stderr, "exprtk stub called\n"), abort(); }
    void ExprtkWrapperEvaluator::Clear() {}
}
