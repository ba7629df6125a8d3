// extraction driver: only includes the repository's own text
#include "app/tenncor/src/tensor/tensorshape.cpp"
#include "app/tenncor/src/memory/iallocator.cpp"
#include "app/tenncor/src/memory/default_alloc.cpp"
#include "app/tenncor/src/memory/alloc_builder.cpp"
#include "tensor/tensor.hpp"
#include "tensor/tensor_handler.hpp"
namespace nnet {
template class tensor<double>;
template class assign_func<double>;
template class transfer_func<double>;
template class const_init<double>;
template class rand_uniform<double>;
}
