// extraction driver: only includes the repository's own text
#include "app/rocnnet/src/layers/ilayer.cpp"
#include "app/rocnnet/src/layers/fc_layer.cpp"
#include "app/rocnnet/src/compounds/icompound.cpp"
#include "app/rocnnet/src/compounds/mlp.cpp"
#include "app/rocnnet/src/models/rbm.cpp"
#include "app/rocnnet/src/models/db_net.cpp"
#include "app/rocnnet/src/models/gd_net.cpp"
