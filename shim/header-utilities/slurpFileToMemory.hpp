#pragma once
#include <fstream>
#include <sstream>
#include <string>
namespace njoy { namespace utility {
inline std::string slurpFileToMemory( const std::string& f ) { std::ifstream i( f ); std::stringstream s; s << i.rdbuf(); return s.str(); }
}}
