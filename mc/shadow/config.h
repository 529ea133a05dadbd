// stands in for the file cmake generates from bench/config.h.in
#pragma once
#define CXX_FILESYSTEM_IS_EXPERIMENTAL 0
#define CXX_FILESYSTEM_NAMESPACE std::filesystem
namespace nw::graph { namespace bench {
constexpr const char BUILD_TYPE[] = "None", CXX_VERSION[] = "0", CXX_COMPILER_ID[] = "GNU", CXX_COMPILER[] = "", USE_TBBMALLOC[] = "";
} }
