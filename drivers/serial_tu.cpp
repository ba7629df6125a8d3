// extraction driver: only includes the repository's own text, and instantiates the two file functions
#include "app/tenncor/src/tensor/tensorshape.cpp"
#include "app/tenncor/src/memory/iallocator.cpp"
#include "app/tenncor/src/memory/default_alloc.cpp"
#include "app/tenncor/src/memory/alloc_builder.cpp"
#include "app/tenncor/src/utils/utils.cpp"
#include "app/tenncor/src/graph/react/iobserver.cpp"
#include "app/tenncor/src/graph/react/subject.cpp"
#include "app/tenncor/declare/tensor.cpp"
#include "app/tenncor/declare/graph.cpp"
#include "memory/tensor_io.hpp"
template bool nnet::write_inorder<double> (std::vector<nnet::inode<double>*>&, std::string, std::string);
template bool nnet::read_inorder<double> (std::vector<nnet::inode<double>*>&, std::string, std::string);
