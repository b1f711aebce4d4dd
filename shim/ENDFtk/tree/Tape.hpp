#ifndef VERIF_SHIM_TAPE
#define VERIF_SHIM_TAPE
#include "ENDFtk/section/2/151.hpp"
#include <memory>
namespace njoy { namespace ENDFtk { namespace tree {
template< class Buffer > struct Tape {
  struct Section {
    std::string text; int mat;
    template< int MF, int MT > section::Type< MF, MT > parse() const {
      std::string t = text; auto b = t.begin(); auto e = t.end(); long n = 1;
      HeadRecord h( b, e, n );
      return section::Type< MF, MT >( h, b, e, n, mat );
    }
  };
  struct File { std::string text; int mat, mf;
    Section sectionNumber( int mt ) const {
      std::string s; std::size_t p = 0;
      while ( p < text.size() ) { auto q = text.find( '\n', p ); if ( q == std::string::npos ) q = text.size();
        std::string l = text.substr( p, q - p ); p = q + 1;
        if ( l.size() >= 75 and std::atoi( l.substr( 70, 2 ).c_str() ) == mf and std::atoi( l.substr( 72, 3 ).c_str() ) == mt ) s += l + "\n"; }
      return { s, mat }; } };
  struct Material { std::string text; int mat;
    int MAT() const { return mat; }
    File fileNumber( int mf ) const { return { text, mat, mf }; } };
  std::vector< Material > m;
  Tape( const Buffer& b ) {
    int mat = 0; std::size_t p = 0;
    while ( p < b.size() and mat <= 0 ) { auto q = b.find( '\n', p ); if ( q == std::string::npos ) q = b.size();
      std::string l = b.substr( p, q - p ); p = q + 1;
      if ( l.size() >= 75 and std::atoi( l.substr( 70, 2 ).c_str() ) > 0 ) mat = std::atoi( l.substr( 66, 4 ).c_str() ); }
    m.push_back( { b, mat } ); }
  auto begin() { return m.begin(); }
  auto end() { return m.end(); }
};
}}}
#endif
