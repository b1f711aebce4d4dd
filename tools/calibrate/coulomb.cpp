// Measures the accuracy of the Coulomb functions cell by cell; run.sh makes harness/coulombtable.hpp of it.
#include <array>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include "resonanceReconstruction.hpp"
#include "../../harness/coulombref.hpp"
#include "../../harness/coulombbin.hpp"
namespace rm = njoy::resonanceReconstruction::rmatrix; namespace cb = coulombbin;
int main( int, char** argv ) { int part = std::atoi( argv[1] ), parts = std::atoi( argv[2] ); long n = std::atol( argv[3] );
  std::map< int, cb::Accuracy > t; std::mt19937_64 rng( 1 + part ); std::uniform_real_distribution< double > u( 0, 1 ); int cell = 0;
  for ( int e = cb::half( 1e-4 ); e <= cb::half( 40. ); ++e ) for ( int r = cb::half( 0.05 ); r <= cb::half( 45. ); ++r ) { if ( cell++ % parts != part ) continue;
    for ( long i = 0; i < n; ++i ) { double eta = std::exp2( ( e + u( rng ) ) / 2 ), rho = std::exp2( ( r + u( rng ) ) / 2 ); if ( eta < 1e-4 or eta > 40 or rho < 0.05 or rho > 45 ) continue; int l = u( rng ) < 0.75 ? int( 6 * u( rng ) ) : int( 13 * u( rng ) );
      auto w = coulombref::evaluate( l, eta, rho ); if ( not w.ok ) continue; long double A2 = w.F * w.F + w.G * w.G; double P = double( rho / A2 ), S = double( rho * ( w.F * w.dF + w.G * w.dG ) / A2 ); unsigned ul = unsigned( l );
      double p, s, f; try { p = rm::calculatePenetrability< rm::ChargedParticle >( ul, rho, eta ); s = rm::calculateShiftFactor< rm::ChargedParticle >( ul, rho, eta ); f = rm::calculatePhaseShift< rm::ChargedParticle >( ul, rho, eta ); } catch ( std::exception& ) { continue; }
      if ( p == 0 and P < 1e-80 ) continue; auto& a = t[ cb::key( cb::branch( eta, rho ), e, r ) ];
      a.P = std::max( a.P, double( std::fabs( p / P - 1 ) ) ); a.S = std::max( a.S, double( std::fabs( s - S ) / ( std::fabs( S ) + P + l ) ) ); a.phi = std::max( a.phi, double( std::fabs( double( ( std::sin( (long double)f ) * w.G - std::cos( (long double)f ) * w.F ) / std::sqrt( A2 ) ) ) ) ); } }
  for ( auto& x : t ) std::printf( "{%d,{%.2g,%.2g,%.2g}},\n", x.first, x.second.P, x.second.S, x.second.phi ); }
