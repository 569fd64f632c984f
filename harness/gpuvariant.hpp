// Compiles the GPU variants of EKAT for the host: the "HIP" space is Kokkos' OpenMP.
#ifndef VP_GPUVARIANT_HPP
#define VP_GPUVARIANT_HPP
#include <Kokkos_Core.hpp>
#include <Kokkos_Random.hpp>
#include <omp.h>
#undef KOKKOS_ENABLE_OPENMP
#define EKAT_ENABLE_GPU
#define KOKKOS_ENABLE_HIP
namespace Kokkos { using HIP=OpenMP; using Serial=OpenMP; inline void memory_fence_() {} }
#endif
