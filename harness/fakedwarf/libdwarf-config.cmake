# see libdwarf.h
if(NOT TARGET libdwarf::dwarf)
  add_library(libdwarf::dwarf INTERFACE IMPORTED)
  set_target_properties(libdwarf::dwarf PROPERTIES INTERFACE_INCLUDE_DIRECTORIES "${CMAKE_CURRENT_LIST_DIR}")
endif()
