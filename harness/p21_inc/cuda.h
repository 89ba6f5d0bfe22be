// the CUDA functions the testbed uses are defined by p21.cpp
