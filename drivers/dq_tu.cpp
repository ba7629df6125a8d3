// extraction driver: only includes the repository's own text
#include "app/rocnnet/src/models/dq_net.cpp"
