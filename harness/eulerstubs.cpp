// link-time stand-ins: the expression parser (exprtk is not installed) is never called by the checked code paths
#include "DNDS/ExprtkWrapper.hpp"
#include <cstdlib>
namespace DNDS
{
    void ExprtkWrapperEvaluator::Compile(const std::string &) { std::abort(); }
    real ExprtkWrapperEvaluator::Evaluate() { std::abort(); }
    void ExprtkWrapperEvaluator::Clear() {}
}
