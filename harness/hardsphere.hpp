// Reference for the hard-sphere functions of a neutral particle, from the closed form of the spherical
// Hankel functions (Abramowitz & Stegun 10.1.9, 10.1.27), in long double; all terms have the same sign.
#ifndef VERIF_HARDSPHERE
#define VERIF_HARDSPHERE
#include <cmath>
#include <complex>
namespace hardsphere {
typedef long double R;
inline R factorial( int n ) { R f = 1; for ( int i = 2; i <= n; ++i ) f *= i; return f; }
struct Values { R P, S; };
inline Values PS( int l, R rho ) {
  if ( rho == 0 ) return { 0, R( -l ) };
  R M = 0, D = 0; // |h|^2 and its logarithmic derivative, times rho^2l
  for ( int k = 0; k <= l; ++k ) {
    R cf = factorial( 2 * l - k ) * factorial( 2 * l - 2 * k ) / ( factorial( k ) * factorial( l - k ) * factorial( l - k ) );
    R t = cf * std::pow( R( 2 ), R( 2 * k - 2 * l ) ) * std::pow( rho, R( 2 * k ) );
    M += t; D += t * R( k - l );
  }
  return { rho * std::pow( rho, R( 2 * l ) ) / M, D / M };
}
// the deviation of a phase shift from the exact value, modulo pi
inline double phaseError( int l, R rho, R phi ) {
  // G + iF = exp( i( rho - l pi/2 ) ) * sum_k (l+k)!/(k!(l-k)!) ( i/(2 rho) )^k;  times rho^l
  std::complex< R > p = 0, i( 0, 1 ), ik = 1;
  for ( int k = 0; k <= l; ++k ) {
    p += ik * ( factorial( l + k ) / ( factorial( k ) * factorial( l - k ) ) * std::pow( R( 2 ), R( -k ) ) * std::pow( rho, R( l - k ) ) );
    ik *= i;
  }
  for ( int k = 0; k < l; ++k ) p *= std::complex< R >( 0, -1 );
  R d = std::atan2( p.imag(), p.real() ) - ( phi - rho ); // phi = rho + arg( (-i)^l p )
  R pi = std::acos( R( -1 ) );
  return double( std::remainder( -d, pi ) );
}
}
#endif
