file(GLOB DRV_SRC ${VERIF_HARNESS_DIR}/drv_*.cpp)
add_executable(czidrv ${DRV_SRC})
set_target_properties(czidrv PROPERTIES CXX_STANDARD 17 CXX_STANDARD_REQUIRED YES)
target_include_directories(czidrv PRIVATE ${CMAKE_SOURCE_DIR}/Src ${CMAKE_SOURCE_DIR}/Src/libCZI ${CMAKE_SOURCE_DIR}/Src/libCZIAPI/inc ${CMAKE_BINARY_DIR}/Src/libCZI ${CMAKE_BINARY_DIR}/Src/libCZIAPI)
target_compile_definitions(czidrv PRIVATE _LIBCZISTATICLIB _LIBCZIAPISTATICLIB)
if(VERIF_PUBLIC_ONLY)
  target_compile_definitions(czidrv PRIVATE VERIF_PUBLIC_ONLY)
endif()
find_package(Threads REQUIRED)
target_link_libraries(czidrv PRIVATE libCZIAPIStatic libCZIStatic Threads::Threads)
