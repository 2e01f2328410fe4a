/* The sandbox has no GPU: let requests for OpenCL GPU devices find the CPU device (pocl). */
#define _GNU_SOURCE
#define CL_TARGET_OPENCL_VERSION 120
#include <CL/cl.h>
#include <dlfcn.h>

static void *real(const char *name) {
  static void *lib;
  if (!lib) lib = dlopen("libOpenCL.so.1", RTLD_NOW | RTLD_LOCAL);
  return dlsym(lib, name);
}

cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type t, cl_uint n, cl_device_id *d, cl_uint *num) {
  cl_int (*f)(cl_platform_id, cl_device_type, cl_uint, cl_device_id *, cl_uint *) = real("clGetDeviceIDs");
  return f(p, t == CL_DEVICE_TYPE_GPU ? CL_DEVICE_TYPE_CPU : t, n, d, num);
}

cl_context clCreateContextFromType(const cl_context_properties *p, cl_device_type t,
                                   void (CL_CALLBACK *cb)(const char *, const void *, size_t, void *), void *u, cl_int *e) {
  cl_context (*f)(const cl_context_properties *, cl_device_type,
                  void (CL_CALLBACK *)(const char *, const void *, size_t, void *), void *, cl_int *) = real("clCreateContextFromType");
  return f(p, t == CL_DEVICE_TYPE_GPU ? CL_DEVICE_TYPE_CPU : t, cb, u, e);
}
