// Independent reference for the Coulomb wave functions F_l(eta,rho), G_l(eta,rho) and derivatives.
//
// Steed's method (continued fractions for F'/F and (G+iF)'/(G+iF)) at a point beyond the turning point,
// then inward integration of G by Taylor expansion (G dominates inward, so that is stable), F from the
// Wronskian.  All in long double.
#ifndef VERIF_COULOMBREF
#define VERIF_COULOMBREF
#include <cmath>
#include <complex>
namespace coulombref {
typedef long double R;
struct FG { R F, dF, G, dG; bool ok; };

// CF1: F'/F, and the sign of F
inline bool cf1( int l, R eta, R rho, R& f, int& sign ) {
  const R tiny = 1e-300L; sign = 1;
  auto S = [&]( R k ) { return k / rho + eta / k; };
  auto R2 = [&]( R k ) { return 1.L + eta * eta / ( k * k ); };
  R k = l + 1; f = S( k ); if ( f == 0 ) f = tiny;
  R C = f, D = 0;
  for ( long n = 1; n < 200000; ++n, k += 1 ) {
    R a = -R2( k ), b = S( k ) + S( k + 1 );
    D = b + a * D; if ( D == 0 ) D = tiny;
    C = b + a / C; if ( C == 0 ) C = tiny;
    D = 1.L / D; if ( D < 0 ) sign = -sign;
    R delta = C * D; f *= delta;
    if ( std::fabs( delta - 1.L ) < 1e-18L ) return true;
  }
  return false;
}
// CF2: p + iq = H'/H
inline bool cf2( int l, R eta, R rho, R& p, R& q ) {
  typedef std::complex< R > Z;
  const Z i( 0, 1 );
  Z a, b, f, C, D;
  const Z A0 = Z( 1 + l, 0 ) + i * eta - R( 1 ), B0 = Z( -l, 0 ) + i * eta - R( 1 ); // a_n = (a-1+n)(b-1+n)
  f = Z( 1e-300L, 0 ); C = f; D = 0;
  for ( long n = 1; n < 200000; ++n ) {
    a = ( A0 + R( n ) ) * ( B0 + R( n ) );
    b = R( 2 ) * Z( rho - eta, R( n ) );
    D = b + a * D; C = b + a / C; D = R( 1 ) / D;
    Z delta = C * D; f *= delta;
    if ( std::abs( delta - R( 1 ) ) < 1e-18L ) {
      Z h = i * ( R( 1 ) - eta / rho ) + i / rho * f; p = h.real(); q = h.imag(); return true; }
  }
  return false;
}
inline FG evaluate( int l, double eta_, double rho_ ) {
  R eta = eta_, rho = rho_;
  R tp = eta + std::sqrt( eta * eta + R( l ) * ( l + 1 ) );
  R start = rho > tp * 1.2L + 8 ? rho : tp * 1.5L + 12;
  FG r{ 0, 0, 0, 0, false };
  R f, p, q; int s;
  if ( not cf1( l, eta, start, f, s ) or not cf2( l, eta, start, p, q ) ) return r;
  R F = R( s ) / std::sqrt( ( f - p ) * ( f - p ) / q + q );
  R gamma = ( f - p ) / q, G = gamma * F, dG = ( p * gamma - q ) * F, dF = f * F;
  if ( start == rho ) { r.F = F; r.dF = dF; r.G = G; r.dG = dG; r.ok = true; return r; }
  // inward: x^2 u'' = ( l(l+1) + 2 eta x - x^2 ) u
  R x = start;
  const R ll = R( l ) * ( l + 1 );
  while ( x > rho ) {
    R h = std::min( x * 0.2L, 0.5L ); if ( x - h < rho ) h = x - rho;
    h = -h;
    R c[64]; c[0] = G; c[1] = dG;
    for ( int n = 0; n + 2 < 64; ++n ) {
      R t = ( ll + 2 * eta * x - x * x ) * c[n] + ( n >= 1 ? ( 2 * eta - 2 * x ) * c[n-1] : 0 ) - ( n >= 2 ? c[n-2] : 0 );
      t -= R( n ) * ( n - 1 ) * c[n] + 2 * x * R( n + 1 ) * n * c[n+1];
      c[n+2] = t / ( x * x * R( n + 2 ) * ( n + 1 ) );
    }
    R g = 0, d = 0; for ( int n = 63; n >= 0; --n ) { d = d * h + g; g = g * h + c[n]; }
    G = g; dG = d; x += h;
    if ( not std::isfinite( G ) ) return r;
    if ( -h + rho >= x and x <= rho ) break;
  }
  if ( not cf1( l, eta, rho, f, s ) ) return r;
  r.G = G; r.dG = dG; r.F = 1.L / ( f * G - dG ); r.dF = f * r.F; r.ok = std::isfinite( r.F ) and std::isfinite( G );
  return r;
}
}
#endif
