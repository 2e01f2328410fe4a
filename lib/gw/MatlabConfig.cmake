# Stand-in for CMake's FindMatlab: builds the MATLAB gateways as MEX files of GNU Octave.
execute_process(COMMAND mkoctfile -p OCTINCLUDEDIR OUTPUT_VARIABLE VF_OCTINC OUTPUT_STRIP_TRAILING_WHITESPACE)
execute_process(COMMAND mkoctfile -p OCTLIBDIR OUTPUT_VARIABLE VF_OCTLIB OUTPUT_STRIP_TRAILING_WHITESPACE)
set(Matlab_FOUND TRUE)
set(Matlab_MEX_EXTENSION mex)
set(Matlab_ROOT_DIR /usr)
set(Matlab_VERSION 9.9)
get_filename_component(VF_OCTUP "${VF_OCTINC}" DIRECTORY)
set(Matlab_INCLUDE_DIRS "${VF_OCTINC}" "${VF_OCTUP}")
set(Matlab_LIBRARIES "")
function(matlab_get_release_name_from_version version release)
  set(${release} R2020b PARENT_SCOPE)
endfunction()
function(matlab_add_mex)
  cmake_parse_arguments(A "EXECUTABLE;MODULE;SHARED;R2017b;R2018a;EXCLUDE_FROM_ALL;NO_IMPLICIT_LINK_TO_MATLAB_LIBRARIES" "NAME;DOCUMENTATION;OUTPUT_NAME" "SRC;LINK_TO" ${ARGN})
  add_library(${A_NAME} MODULE ${A_SRC} ${A_UNPARSED_ARGUMENTS})
  target_link_libraries(${A_NAME} ${A_LINK_TO} -L${VF_OCTLIB} octinterp octave)
  if(A_OUTPUT_NAME)
    set_target_properties(${A_NAME} PROPERTIES OUTPUT_NAME ${A_OUTPUT_NAME})
  endif()
  set_target_properties(${A_NAME} PROPERTIES PREFIX "" SUFFIX ".mex")
endfunction()
