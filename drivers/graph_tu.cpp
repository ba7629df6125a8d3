// extraction driver: only includes the repository's own text
#include "app/tenncor/src/tensor/tensorshape.cpp"
#include "app/tenncor/src/utils/utils.cpp"
#include "app/tenncor/src/graph/react/iobserver.cpp"
#include "app/tenncor/src/graph/react/subject.cpp"
#include "app/tenncor/declare/operations.cpp"
