// Where in the (eta, rho) plane the Coulomb algorithm has which accuracy: branch of the method, and a cell of half an octave.
#ifndef VERIF_COULOMBBIN
#define VERIF_COULOMBBIN
#include <algorithm>
#include <cmath>
#include <map>
namespace coulombbin {
inline int branch( double eta, double rho ) {
  if ( eta >= 15 ) return rho < 16 ? 0 : rho <= 5 * eta / 3 - 5 ? 1 : 2;
  if ( eta >= 5 ) return rho <= 2 * eta ? 3 : rho <= 2.5 * eta + 7.5 ? 4 : 5;
  return rho <= 2 * eta + 10 ? 6 : 7; }
inline int half( double x ) { return int( std::floor( 2 * std::log2( x ) ) ); }
inline int key( int b, int e, int r ) { return ( b * 100 + e + 50 ) * 100 + r + 50; }
struct Accuracy { double P, S, phi; };  // largest deviations seen: relative; relative to |S| + P + l; absolute
extern const std::map< int, Accuracy > table;
// three times the largest deviation seen in the cell and those around it
inline bool tolerance( double eta, double rho, double& P, double& S, double& phi ) {
  Accuracy a{ 0, 0, 0 }; bool found = false; int e = half( eta ), r = half( rho );
  for ( double fe : { 1 - 1e-9, 1 + 1e-9 } ) for ( double fr : { 1 - 1e-9, 1 + 1e-9 } ) { int b = branch( eta * fe, rho * fr );
    for ( int i = -1; i <= 1; ++i ) for ( int j = -1; j <= 1; ++j ) { auto it = table.find( key( b, e + i, r + j ) ); if ( it == table.end() ) continue; if ( i == 0 and j == 0 ) found = true;
      a.P = std::max( a.P, it->second.P ); a.S = std::max( a.S, it->second.S ); a.phi = std::max( a.phi, it->second.phi ); } }
  P = 3 * a.P + 1e-10; S = 3 * a.S + 1e-10; phi = 3 * a.phi + 1e-10; return found; }
}
#endif
