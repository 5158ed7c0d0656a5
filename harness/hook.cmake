# included by /repo's project(libCZI ...) through CMAKE_PROJECT_libCZI_INCLUDE;
# adds our driver to the same build graph without touching /repo.
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL include ${VERIF_HARNESS_DIR}/drivers.cmake)
