// extraction driver: only includes the repository's own text
#include "app/tenncor/src/tensor/tensorshape.cpp"
#include "app/tenncor/src/memory/iallocator.cpp"
#include "app/tenncor/src/memory/default_alloc.cpp"
#include "app/tenncor/src/memory/alloc_builder.cpp"
#include "app/tenncor/src/utils/utils.cpp"
#include "app/tenncor/src/graph/react/iobserver.cpp"
#include "app/tenncor/src/graph/react/subject.cpp"
#include "app/tenncor/declare/tensor.cpp"
#include "app/tenncor/declare/graph.cpp"
