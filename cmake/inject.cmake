# Read by CMake right after project(mrob) of /repo (CMAKE_PROJECT_INCLUDE).  Builds the
# real library from /repo's working tree and adds, for every /verif/harness/cNN.cpp, an
# executable verif_cNN (workload + monitors) linked with the library.
#   VERIF_DIR      /verif
#   VERIF_NO_PY    do not require pybind11 / Python bindings
# The submodules external/Eigen and external/pybind11 are empty here: use the system packages.
find_package(Eigen3 CONFIG REQUIRED)
include_directories(SYSTEM /usr/include/eigen3)

macro(add_subdirectory _dir)
  if("${_dir}" MATCHES "external/pybind11/?$")
    find_package(pybind11 CONFIG REQUIRED)
  else()
    _add_subdirectory("${_dir}" ${ARGN})
  endif()
endmacro()

# libraries under test per harness (default: all)
set(_vlibs_c01 SE3 common)
set(_vlibs_c02 SE3 common)
set(_vlibs_c03 SE3 common)
set(_vlibs_c04 SE3 common)
set(_vlibs_c16 common)
foreach(_h 07 08 09 10 11 12 13 14 15)
  set(_vlibs_c${_h} FGraph SE3 common)
endforeach()

function(_verif_targets)
  # C interface to the library, oracle of the Python workload
  add_library(verif_bridge SHARED EXCLUDE_FROM_ALL ${VERIF_DIR}/harness/bridge.cpp)
  target_compile_options(verif_bridge PRIVATE -w)
  target_link_libraries(verif_bridge PCRegistration FGraph SE3 common)
  file(GLOB _hs ${VERIF_DIR}/harness/c[0-9][0-9].cpp)
  foreach(_f ${_hs})
    get_filename_component(_n ${_f} NAME_WE)
    if(DEFINED _vlibs_${_n})
      set(_l ${_vlibs_${_n}})
    else()
      set(_l PCRegistration FGraph SE3 common)
    endif()
    add_executable(verif_${_n} EXCLUDE_FROM_ALL ${_f})
    target_include_directories(verif_${_n} PRIVATE ${VERIF_DIR}/harness)
    target_compile_options(verif_${_n} PRIVATE -w)
    target_link_libraries(verif_${_n} ${_l} pthread)
  endforeach()
endfunction()
cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL _verif_targets)
