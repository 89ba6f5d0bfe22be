// stands for the CUDA toolkit's header, see cuda_emu.hpp
#include "cuda_emu.hpp"
