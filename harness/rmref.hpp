// Independent model of a compound system in the Reich-Moore approximation: kinematics, hard-sphere functions
// and the collision matrix, in long double, from the textbook formulae (ENDF-102, appendix D).
#ifndef VERIF_RMREF
#define VERIF_RMREF
#include <cmath>
#include <complex>
#include <map>
#include <string>
#include <vector>
#include "hardsphere.hpp"

namespace rmref {
typedef long double R;
typedef std::complex< R > Z;
const R pi = std::acos( R( -1 ) );
// CODATA 2014
const R hbar = 6.582119514e-16L, e = 1.6021766208e-19L, amu = 1.660539040e-27L, eps0 = 8.854187817e-12L;

struct Part { std::string id; double mass; int Z; int spin2; int parity; };
struct Pair { Part a, b; std::string id; };  // id empty: made from the particles
inline std::string pairId( const Pair& p ) { return p.id.empty() ? p.a.id + "," + p.b.id : p.id; }
inline R reduced( const Pair& p ) { R a = p.a.mass, b = p.b.mass; return a * b / ( a + b ); }
inline R ratio( const Pair& p ) { R a = p.a.mass, b = p.b.mass; return b / ( a + b ); }

enum Type { neutron, photon, charged, fission };
struct Chan {
  Type type; int pair; int l, s2; double q; double rP, rS, rF; double B; std::string other; // other: replacement name
};
struct Reso { double E; std::vector< double > w; double el; };
struct Group { int J2, parity; std::vector< Chan > ch; std::vector< Reso > res; };
struct System { std::vector< Pair > pairs; std::vector< Group > groups; }; // pairs[0] is the incident pair

inline std::string half( int x ) { return x % 2 ? std::to_string( x ) + "/2" : std::to_string( x / 2 ); }
inline std::string channelId( const System& s, const Group& g, const Chan& c ) {
  return ( c.other.empty() ? pairId( s.pairs[c.pair] ) : c.other ) + "{" + std::to_string( c.l ) + "," + half( c.s2 ) + "," + half( g.J2 ) + ( g.parity > 0 ? "+" : "-" ) + "}"; }
inline std::string reactionId( const System& s, const Chan& c ) { return pairId( s.pairs[0] ) + "->" + pairId( s.pairs[c.pair] ); }
inline std::string captureId( const System& s ) { return pairId( s.pairs[0] ) + "->capture"; }

inline R available( const System& s, const Chan& c, double E ) { return R( E ) * ratio( s.pairs[0] ) + R( c.q ); }
// wave number in barn^-1/2
inline R k( const System& s, const Chan& c, double E ) {
  return std::sqrt( 2 * reduced( s.pairs[c.pair] ) * amu * std::fabs( available( s, c, E ) ) / e ) / hbar * 1e-14L; }
inline R eta( const System& s, const Chan& c, double E ) {
  R zz = R( s.pairs[c.pair].a.Z ) * s.pairs[c.pair].b.Z; if ( zz == 0 ) return 0;
  R kk = k( s, c, E ) * 1e14L, h = hbar * e;
  return zz * e * e * reduced( s.pairs[c.pair] ) * amu / ( 4 * pi * eps0 * h * h * kk ); }
inline R g( const System& s, const Group& gr, int pair ) {
  return R( gr.J2 + 1 ) / ( s.pairs[pair].a.spin2 + 1 ) / ( s.pairs[pair].b.spin2 + 1 ); }

// the hard-sphere phase shift (a value modulo pi)
inline R phase( int l, R rho ) {
  Z p = 0, ik = 1;
  for ( int n = 0; n <= l; ++n ) {
    p += ik * ( hardsphere::factorial( l + n ) / ( hardsphere::factorial( n ) * hardsphere::factorial( l - n ) ) * std::pow( R( 2 ), R( -n ) ) * std::pow( rho, R( l - n ) ) );
    ik *= Z( 0, 1 );
  }
  for ( int n = 0; n < l; ++n ) p *= Z( 0, -1 );
  return rho + std::arg( p );
}

// functions of one channel at one energy
// dP: relative error of P, dS: absolute error of S when computed in double precision
struct Wave { R P, S, phi, w; bool open; R dP = 1e-14L, dS = 0; };

struct Matrices {
  std::vector< std::vector< Z > > T, U;   // T = P^1/2 ( 1 - RL )^-1 R P^1/2
  std::vector< std::vector< R > > error;  // estimate of the rounding error of T in double precision
  R worst = 0;
};
inline R norm( const std::vector< std::vector< Z > >& m ) { R x = 0; for ( auto& r : m ) { R t = 0; for ( auto& v : r ) t += std::abs( v ); x = std::max( x, t ); } return x; }
// shift: the boundary condition equals the shift factor
inline Matrices collision( const Group& gr, const std::vector< Wave >& wv, double E, bool shift ) {
  const std::size_t n = gr.ch.size();
  typedef std::vector< std::vector< Z > > M;
  M A( n, std::vector< Z >( n ) ), X = A, inv = A, abs = A;
  for ( auto& r : gr.res ) {
    Z d( R( r.E ) - R( E ), -R( r.el ) * R( r.el ) );
    for ( std::size_t i = 0; i < n; ++i ) for ( std::size_t j = 0; j < n; ++j ) {
      if ( not wv[i].open or not wv[j].open ) continue;
      Z t = R( r.w[i] ) * R( r.w[j] ) / d; X[i][j] += t; abs[i][j] += std::abs( t ); }
  }
  R nl = 0;
  for ( std::size_t j = 0; j < n; ++j ) {
    Z L( shift ? R( 0 ) : wv[j].S - R( gr.ch[j].B ), wv[j].P ); nl = std::max( nl, std::abs( L ) );
    for ( std::size_t i = 0; i < n; ++i ) { A[i][j] = ( i == j ? R( 1 ) : R( 0 ) ) - X[i][j] * L; inv[i][j] = i == j ? R( 1 ) : R( 0 ); }
  }
  R na = 1 + norm( abs ) * nl, nr = norm( abs );
  for ( std::size_t c = 0; c < n; ++c ) { // Gauss-Jordan with row pivoting
    std::size_t p = c; for ( std::size_t i = c; i < n; ++i ) if ( std::abs( A[i][c] ) > std::abs( A[p][c] ) ) p = i;
    std::swap( A[c], A[p] ); std::swap( X[c], X[p] ); std::swap( inv[c], inv[p] );
    Z d = A[c][c];
    for ( std::size_t j = 0; j < n; ++j ) { A[c][j] /= d; X[c][j] /= d; inv[c][j] /= d; }
    for ( std::size_t i = 0; i < n; ++i ) if ( i != c and A[i][c] != Z( 0 ) ) { Z f = A[i][c];
      for ( std::size_t j = 0; j < n; ++j ) { A[i][j] -= f * A[c][j]; X[i][j] -= f * X[c][j]; inv[i][j] -= f * inv[c][j]; } }
  }
  R ni = norm( inv ), ex = R( n ) * 1.1e-16L * ni * ni * na * nr + R( n ) * 1.1e-16L * ni * nr; // inverse, then times R
  std::vector< R > dL; for ( std::size_t j = 0; j < n; ++j ) dL.push_back( wv[j].P * wv[j].dP + ( shift ? R( 0 ) : wv[j].dS + 4e-16L * ( std::fabs( wv[j].S ) + std::fabs( R( gr.ch[j].B ) ) ) ) );
  Matrices m; m.T = M( n, std::vector< Z >( n ) ); m.U = m.T; m.error.assign( n, std::vector< R >( n ) );
  for ( std::size_t i = 0; i < n; ++i ) for ( std::size_t j = 0; j < n; ++j ) {
    R sc = std::sqrt( wv[i].P ) * std::sqrt( wv[j].P );
    R byL = 0; for ( std::size_t k = 0; k < n; ++k ) byL += std::abs( X[i][k] ) * dL[k] * std::abs( X[k][j] );
    m.T[i][j] = sc * X[i][j]; m.error[i][j] = 10 * sc * ex + 4 * sc * byL + ( 1e-13L + wv[i].dP + wv[j].dP ) * std::abs( m.T[i][j] ); m.worst = std::max( m.worst, m.error[i][j] );
    m.U[i][j] = std::polar( R( 1 ), wv[i].w - wv[i].phi + wv[j].w - wv[j].phi ) * ( ( i == j ? R( 1 ) : R( 0 ) ) + Z( 0, 2 ) * m.T[i][j] );
  }
  return m;
}
}
#endif
