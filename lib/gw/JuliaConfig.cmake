# Stand-in for Julia and CxxWrap: the Julia gateways become Python extension modules.
set(Julia_FOUND TRUE)
find_package(pybind11 CONFIG REQUIRED)
set(Julia_INCLUDE_DIRS "${CMAKE_CURRENT_LIST_DIR}" ${pybind11_INCLUDE_DIRS} ${Python_INCLUDE_DIRS} ${PYTHON_INCLUDE_DIRS})
