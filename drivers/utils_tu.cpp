// extraction driver: only includes the repository's own text
#include "app/tenncor/src/utils/utils.cpp"
template nnutils::formatter& nnutils::formatter::operator << (const double& value);
