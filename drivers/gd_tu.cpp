// extraction driver: only includes the repository's own text
#include "app/tenncor/src/utils/gd_utils.cpp"
