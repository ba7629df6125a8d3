// extraction driver: only includes the repository's own text
#include "app/tenncor/src/tensor/tensorshape.cpp"
#include "app/tenncor/src/utils/utils.cpp"
#include "app/tenncor/declare/operations.cpp"
namespace nnet
{
template varptr<double> log (const varptr<double> a);
template varptr<double> round (const varptr<double> a);
template varptr<double> identity (varptr<double> a);
template varptr<double> neq (const varptr<double> a, const varptr<double> b);
template varptr<double> eq (const varptr<double> a, const varptr<double> b);
template varptr<double> conditional (double a, const varptr<double> b, std::function<bool(double,double)> compare, std::string name);
template varptr<double> conditional (const varptr<double> a, double b, std::function<bool(double,double)> compare, std::string name);
template varptr<double> conditional (const varptr<double> a, const varptr<double> b, std::function<bool(double,double)> compare, std::string name);
}
