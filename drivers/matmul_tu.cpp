// extraction driver: only includes the repository's own text, with the divide-and-conquer path switched on as in the build
#define ENABLE_STRASSEN
#include "app/tenncor/src/tensor/tensorshape.cpp"
#include "app/tenncor/src/utils/utils.cpp"
#include "app/tenncor/declare/operations.cpp"
