// Harness for the part of the library that needs none of the njoy dependencies (built like the
// repository's own stable test build): hard-sphere functions, Coulomb functions, spin algebra, identifiers.
#include <array>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "resonanceReconstruction.hpp"
#include "pbt.hpp"
#include "coulombref.hpp"
#include "coulombbin.hpp"
#include "coulombtable.hpp"
#include "hardsphere.hpp"

namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
typedef long double LD;

static double anyRho( pbt::Src& g ) {
  switch ( g.below( 4 ) ) {
    case 0: return g.real( 0., 12. );
    case 1: return g.logreal( 1e-12, 1e12 );
    case 2: return std::sqrt( g.real( 0., 120. ) ); // the zeros of the denominators lie at round values of rho^2
    default: return g.logreal( 1e-4, 1e2 );
  }
}
static double anyEta( pbt::Src& g ) { return g.chance( 50 ) ? g.real( -3., 60. ) : 0.; }

template< class F > static bool throws( F&& f ) {
  try { f(); } catch ( const std::exception& ) { return true; }
  return false;
}

// ------------------------------------------------------------------------------------ C01
FACET( "C01", "values", 3000000, 60000000,
       "l in 0..4, rho in [1e-12,1e12] from four distributions; non-trivial: l > 0 and rho > 0" ) {
  int l = int( g.below( 5 ) ); double rho = anyRho( g ), eta = anyEta( g );
  c.note( "l=", l, " rho=", rho, " eta=", eta );
  c.nontrivial( l > 0 and rho > 0 ); c.label( l == 0 ? "l=0" : l == 1 ? "l=1" : l == 2 ? "l=2" : l == 3 ? "l=3" : "l=4" );
  auto ref = hardsphere::PS( l, rho );
  double P = double( ref.P ), S = double( ref.S );
  auto old = rr::penetrationShift( l, rho );
  c.close( old[0], P, 2e-14, 0., "penetrationShift(l,rho) penetrability" );
  c.close( old[1], S, 2e-14, 0., "penetrationShift(l,rho) shift factor" );
  auto made = [&] {
    switch ( l ) {
      case 0: return rr::penetrationShift( rr::Integer< 0 >{} )( rho ); case 1: return rr::penetrationShift( rr::Integer< 1 >{} )( rho );
      case 2: return rr::penetrationShift( rr::Integer< 2 >{} )( rho ); case 3: return rr::penetrationShift( rr::Integer< 3 >{} )( rho );
      default: return rr::penetrationShift( rr::Integer< 4 >{} )( rho );
    } }();
  c.close( made[0], P, 2e-14, 0., "penetrationShift(Integer<l>)(rho) penetrability" );
  c.close( made[1], S, 2e-14, 0., "penetrationShift(Integer<l>)(rho) shift factor" );
  c.close( rm::calculatePenetrability< rm::Neutron >( unsigned( l ), rho, eta ), P, 2e-14, 0., "calculatePenetrability<Neutron>" );
  c.close( rm::calculateShiftFactor< rm::Neutron >( unsigned( l ), rho, eta ), S, 2e-14, 0., "calculateShiftFactor<Neutron>" );
}
FACET( "C01", "closed", 20000, 1000000, "l in 0..4, rho <= 0; non-trivial: rho < 0" ) {
  int l = int( g.below( 5 ) ); double rho = g.chance( 20 ) ? 0. : -anyRho( g );
  c.note( "l=", l, " rho=", rho ); c.nontrivial( rho < 0 );
  auto old = rr::penetrationShift( l, rho );
  c.require( old[0] == 0., "the penetrability of a closed channel is ", old[0] );
  if ( rho == 0. ) {
    c.require( old[1] == -double( l ), "the shift factor at rho = 0 is ", old[1] );
    c.require( rm::calculatePenetrability< rm::Neutron >( unsigned( l ), 0., 0. ) == 0., "calculatePenetrability<Neutron> at rho = 0" );
    c.require( rm::calculateShiftFactor< rm::Neutron >( unsigned( l ), 0., 0. ) == -double( l ), "calculateShiftFactor<Neutron> at rho = 0" );
  }
}
FACET( "C01", "unsupported", 20000, 500000, "l > 4 (and l < 0 where the argument is signed); non-trivial: every case" ) {
  long l = g.chance( 70 ) ? g.integer( 5, 40 ) : long( g.logreal( 5., 2e9 ) ); double rho = anyRho( g );
  c.note( "l=", l, " rho=", rho ); c.nontrivial();
  c.require( throws( [&] { rr::penetrationShift( int( l ), rho ); } ), "penetrationShift accepts l=", l );
  c.require( throws( [&] { rr::penetrationShift( -int( l ) + 4, rho ); } ), "penetrationShift accepts l=", 4 - l );
  c.require( throws( [&] { rm::calculatePenetrability< rm::Neutron >( unsigned( l ), rho, 0. ); } ), "calculatePenetrability<Neutron> accepts l=", l );
  c.require( throws( [&] { rm::calculateShiftFactor< rm::Neutron >( unsigned( l ), rho, 0. ); } ), "calculateShiftFactor<Neutron> accepts l=", l );
}

// calls one after the other with related arguments (equal, next to each other, or differing in one of them only)
struct Related {
  std::vector< double > rho, eta; std::vector< int > l;
  Related( pbt::Src& g, double first, int lmax ) {
    rho = { first, std::nextafter( first, 1e300 ), first * ( 1 + 1e-9 ), first * ( 1 + 1e-6 ), first * 1.001, first * 2., g.logreal( 0.05, 40. ) };
    double e = g.logreal( 0.01, 20. ); eta = { e, 0., e * ( 1 + 1e-9 ), e * ( 1 + 1e-5 ), e * 2., g.logreal( 0.01, 20. ) };
    l = { int( g.below( unsigned( lmax + 1 ) ) ), int( g.below( unsigned( lmax + 1 ) ) ) };
  }
};
FACET( "C01", "sequences", 60000, 2000000, "6 calls in a row with related rho, l and eta: each gives the value of its own arguments; non-trivial: l > 0 in one of them" ) {
  Related k( g, std::max( 1e-6, anyRho( g ) ), 4 ); bool any = false;
  for ( int i = 0; i < 6; ++i ) {
    int l = g.pick( k.l ); double rho = g.pick( k.rho ), eta = g.pick( k.eta ); unsigned what = unsigned( g.below( 3 ) ); any = any or l > 0;
    c.note( "call ", i, ": l=", l, " rho=", rho, " eta=", eta, " function ", what );
    auto ref = hardsphere::PS( l, rho );
    if ( what == 0 ) { auto v = rr::penetrationShift( l, rho ); c.close( v[0], double( ref.P ), 2e-14, 0., "penetrationShift P" ); c.close( v[1], double( ref.S ), 2e-14, 0., "penetrationShift S" ); }
    else if ( what == 1 ) c.close( rm::calculatePenetrability< rm::Neutron >( unsigned( l ), rho, eta ), double( ref.P ), 2e-14, 0., "calculatePenetrability<Neutron>" );
    else c.close( rm::calculateShiftFactor< rm::Neutron >( unsigned( l ), rho, eta ), double( ref.S ), 2e-14, 0., "calculateShiftFactor<Neutron>" );
  }
  c.nontrivial( any );
}

// ------------------------------------------------------------------------------------ C02
FACET( "C02", "values", 3000000, 60000000,
       "l in 0..4, rho in [0,1e6]; compared modulo pi; non-trivial: l > 0 and rho > 0" ) {
  int l = int( g.below( 5 ) ); double rho = std::min( anyRho( g ), 1e6 ), eta = anyEta( g );
  c.note( "l=", l, " rho=", rho, " eta=", eta );
  c.nontrivial( l > 0 and rho > 0 ); c.label( l == 0 ? "l=0" : l == 1 ? "l=1" : l == 2 ? "l=2" : l == 3 ? "l=3" : "l=4" );
  double a = rr::phaseShift( l, rho ), b = rm::calculatePhaseShift< rm::Neutron >( unsigned( l ), rho, eta );
  double ea = hardsphere::phaseError( l, rho, a ), eb = hardsphere::phaseError( l, rho, b );
  double tol = 2e-15 * rho + ( rho > 1 ? 2e-15 : 0. ); // rounding of rho - atan( rho * offset )
  c.require( std::fabs( ea ) <= tol, "phaseShift(l,rho) = ", a, " deviates by ", ea, " modulo pi (allowed: ", tol, ")" );
  c.require( std::fabs( eb ) <= tol, "calculatePhaseShift<Neutron> = ", b, " deviates by ", eb, " modulo pi (allowed: ", tol, ")" );
  if ( l == 0 ) c.require( a == rho and b == rho, "the phase shift for l = 0 is not rho" );
}
FACET( "C02", "unsupported", 20000, 500000, "l > 4 (and l < 0 where the argument is signed); non-trivial: every case" ) {
  long l = g.chance( 70 ) ? g.integer( 5, 40 ) : long( g.logreal( 5., 2e9 ) ); double rho = anyRho( g );
  c.note( "l=", l, " rho=", rho ); c.nontrivial();
  c.require( throws( [&] { rr::phaseShift( int( l ), rho ); } ), "phaseShift accepts l=", l );
  c.require( throws( [&] { rr::phaseShift( -int( l ) + 4, rho ); } ), "phaseShift accepts l=", 4 - l );
  c.require( throws( [&] { rm::calculatePhaseShift< rm::Neutron >( unsigned( l ), rho, 0. ); } ), "calculatePhaseShift<Neutron> accepts l=", l );
}

FACET( "C02", "sequences", 60000, 2000000, "6 calls in a row with related rho and l: each gives the value of its own arguments; non-trivial: l > 0 in one of them" ) {
  Related k( g, std::min( 1e5, std::max( 1e-3, anyRho( g ) ) ), 4 ); bool any = false;
  for ( int i = 0; i < 6; ++i ) {
    int l = g.pick( k.l ); double rho = g.pick( k.rho ), eta = g.pick( k.eta ); bool older = g.boolean(); any = any or l > 0;
    c.note( "call ", i, ": l=", l, " rho=", rho, " eta=", eta, older ? " older" : " newer" );
    double v = older ? rr::phaseShift( l, rho ) : rm::calculatePhaseShift< rm::Neutron >( unsigned( l ), rho, eta ), e = hardsphere::phaseError( l, rho, v );
    c.require( std::fabs( e ) <= 2e-15 * rho + ( rho > 1 ? 2e-15 : 0. ), "the phase shift ", v, " deviates by ", e, " modulo pi" );
  }
  c.nontrivial( any );
}

// ------------------------------------------------------------------------------------ C03
struct ChargedCase { int l; double eta, rho; };
static ChargedCase charged( pbt::Src& g, double lowRho, double highRho ) {
  ChargedCase k;
  k.l = int( g.chance( 75 ) ? g.below( 6 ) : g.below( 13 ) );
  switch ( g.below( 4 ) ) {
    case 0: k.eta = g.logreal( 1e-4, 40. ); break;
    case 1: k.eta = g.real( 0.01, 5. ); break;
    case 2: k.eta = g.real( 4.5, 16. ); break;
    default: k.eta = g.real( 14., 40. ); break;
  }
  switch ( g.below( 5 ) ) {
    case 0: case 1: k.rho = g.logreal( lowRho, highRho ); break;
    case 2: k.rho = g.real( lowRho, highRho ); break;
    // around the places where the method changes
    case 3: k.rho = g.pick( { 2. * k.eta, 2. * k.eta + 10., 2.5 * k.eta + 7.5, 5. * k.eta / 3. - 5., 16. } ) + ( g.chance( 50 ) ? 0. : g.real( -1., 1. ) ); break;
    default: k.rho = g.real( 0.5, 1.5 ) * ( k.eta + std::sqrt( k.eta * k.eta + k.l * ( k.l + 1. ) ) ); break;
  }
  if ( not ( k.rho >= lowRho ) ) k.rho = lowRho;
  if ( k.rho > highRho ) k.rho = highRho;
  return k;
}
FACET( "C03", "values", 300000, 4000000,
       "l in 0..12, eta in [1e-4,40], rho in [0.05,45]; non-trivial: the library returns a non-zero penetrability" ) {
  auto k = charged( g, 0.05, 45. );
  c.note( "l=", k.l, " eta=", k.eta, " rho=", k.rho );
  c.label( k.eta < 5 ? "eta<5" : k.eta < 15 ? "5<=eta<15" : "eta>=15" ); if ( k.rho > 2 * k.eta ) c.label( "rho>2eta" );
  auto r = coulombref::evaluate( k.l, k.eta, k.rho );
  if ( not r.ok ) throw pbt::Skip{};
  LD A2 = r.F * r.F + r.G * r.G;
  double P = double( k.rho / A2 ), S = double( k.rho * ( r.F * r.dF + r.G * r.dG ) / A2 );
  unsigned l = unsigned( k.l );
  double p = rm::calculatePenetrability< rm::ChargedParticle >( l, k.rho, k.eta );
  double s = rm::calculateShiftFactor< rm::ChargedParticle >( l, k.rho, k.eta );
  double f = rm::calculatePhaseShift< rm::ChargedParticle >( l, k.rho, k.eta );
  if ( p == 0. and s == 0. and f == 0. and P < 1e-80 ) { c.label( "underflow" ); return; } // documented way out for vanishing penetrability
  c.nontrivial();
  // the asymptotic starting values and the fixed integration mesh limit the accuracy (measured over 4e5 points, doubled)
  double tolP = 4e-5 + 1.2e-4 * k.eta / k.rho, tolS = 4e-5 + 8e-5 * ( 1 + k.eta ) / k.rho + 6e-5 * ( 1 + k.eta ) / ( k.rho * k.rho ), tolF = 4e-5;
  if ( k.eta >= 15 and k.rho > 15.9 and k.rho < 5 * k.eta / 3 - 4.9 ) tolP += 3e-4, tolS += 3e-4;
  if ( k.eta < 4.999 and k.rho > 2 * k.eta + 10.01 ) tolP = tolS = tolF = ( k.rho > 40 ? 1e-6 : 2e-7 ); // no integration
  // and the accuracy measured cell by cell (coulombtable.hpp), with a factor of three
  double cP, cS, cF; if ( coulombbin::tolerance( k.eta, k.rho, cP, cS, cF ) ) { tolP = std::min( tolP, cP ); tolS = std::min( tolS, cS ); tolF = std::min( tolF, cF ); c.label( "calibrated" ); }
  c.close( p, P, tolP, 0., "penetrability" );
  c.close( s, S, 0., tolS * ( std::fabs( S ) + P + k.l ), "shift factor" );
  LD sn = std::sin( (LD)f ) * r.G - std::cos( (LD)f ) * r.F; // sin( f - phi ) * sqrt( A2 )
  double err = double( sn / std::sqrt( A2 ) );
  c.require( std::fabs( err ) <= tolF, "phase shift ", f, " deviates by ", err, " from arg(G+iF) modulo pi" );
}
FACET( "C03", "wronskian", 100000, 2000000,
       "l in 0..12, eta in [0,40], rho in [0.05,45]: F'G - FG' = 1, P > 0, S and phi consistent with the wave functions; non-trivial: non-zero wave functions" ) {
  auto k = charged( g, 0.05, 45. ); if ( g.chance( 15 ) ) k.eta = 0.;
  c.note( "l=", k.l, " eta=", k.eta, " rho=", k.rho );
  std::complex< double > gf, dgf; rm::coulombWaveFunctions( k.l, k.rho, k.eta, gf, dgf );
  double F = gf.imag(), G = gf.real(), dF = dgf.imag(), dG = dgf.real();
  if ( F == 0. and G == 0. ) return;
  c.nontrivial();
  double w = dF * G - F * dG;
  c.require( std::fabs( w - 1. ) <= 2e-6, "the Wronskian is ", w );
  unsigned l = unsigned( k.l );
  c.close( rm::calculatePenetrability< rm::ChargedParticle >( l, k.rho, k.eta ), k.rho / ( F * F + G * G ), 1e-12, 0., "P is not rho/(F^2+G^2)" );
  c.close( rm::calculateShiftFactor< rm::ChargedParticle >( l, k.rho, k.eta ), k.rho * ( F * dF + G * dG ) / ( F * F + G * G ), 1e-11,
           1e-12 * k.rho * ( std::fabs( F * dF ) + std::fabs( G * dG ) ) / ( F * F + G * G ), "S is not rho(FF'+GG')/(F^2+G^2)" );
}
FACET( "C03", "uncharged limit", 60000, 500000,
       "l in 0..4, eta = 0, rho in [0.01,40]: equals the hard-sphere functions; non-trivial: l > 0" ) {
  int l = int( g.below( 5 ) ); double rho = g.chance( 50 ) ? g.logreal( 0.01, 40. ) : g.real( 0.01, 40. );
  c.note( "l=", l, " rho=", rho ); c.nontrivial( l > 0 );
  auto ref = hardsphere::PS( l, rho );
  double tol = rho > 20 ? 1e-7 : 1e-10;
  c.close( rm::calculatePenetrability< rm::ChargedParticle >( unsigned( l ), rho, 0. ), double( ref.P ), tol, 0., "penetrability" );
  c.close( rm::calculateShiftFactor< rm::ChargedParticle >( unsigned( l ), rho, 0. ), double( ref.S ), 0., tol * ( 1 + l + rho ) * ( 1 + 1 / rho ), "shift factor" );
  double f = rm::calculatePhaseShift< rm::ChargedParticle >( unsigned( l ), rho, 0. );
  double e = hardsphere::phaseError( l, rho, f );
  c.require( std::fabs( e ) <= tol * 10, "phase shift ", f, " deviates by ", e, " modulo pi" );
}
FACET( "C03", "sequences", 6000, 200000,
       "8 calls in a row with related l, eta and rho: each is what the wave functions of its own arguments give; non-trivial: non-zero penetrability" ) {
  Related k( g, g.logreal( 0.5, 20. ), 6 ); bool any = false;
  for ( int i = 0; i < 8; ++i ) {
    int l = g.pick( k.l ); double rho = g.pick( k.rho ), eta = g.pick( k.eta ); unsigned what = unsigned( g.below( 3 ) );
    c.note( "call ", i, ": l=", l, " rho=", rho, " eta=", eta, " function ", what );
    double v = what == 0 ? rm::calculatePenetrability< rm::ChargedParticle >( unsigned( l ), rho, eta )
             : what == 1 ? rm::calculateShiftFactor< rm::ChargedParticle >( unsigned( l ), rho, eta ) : rm::calculatePhaseShift< rm::ChargedParticle >( unsigned( l ), rho, eta );
    std::complex< double > gf, dgf; rm::coulombWaveFunctions( l, rho, eta, gf, dgf );
    double F = gf.imag(), G = gf.real(), dF = dgf.imag(), dG = dgf.real(), A = F * F + G * G;
    if ( A == 0. ) continue;
    any = true;
    c.require( std::fabs( dF * G - F * dG - 1. ) <= 2e-6, "the Wronskian is ", dF * G - F * dG );
    if ( what == 0 ) c.close( v, rho / A, 1e-12, 0., "penetrability" );
    else if ( what == 1 ) c.close( v, rho * ( F * dF + G * dG ) / A, 1e-11, 1e-12 * rho * ( std::fabs( F * dF ) + std::fabs( G * dG ) ) / A, "shift factor" );
    else c.require( std::fabs( std::sin( v ) * G - std::cos( v ) * F ) <= 1e-11 * std::sqrt( A ), "the phase shift ", v, " is not arg(G+iF)" );
    if ( i % 4 == 3 ) {
      auto r = coulombref::evaluate( l, eta, rho );
      if ( r.ok ) c.close( rho / A, double( rho / ( r.F * r.F + r.G * r.G ) ), 4e-5 + 1.2e-4 * eta / rho + ( eta >= 15 ? 3e-4 : 0. ), 0., "rho/(F^2+G^2)" );
    }
  }
  c.nontrivial( any );
}
FACET( "C03", "at the threshold", 20000, 200000, "rho = 0, l in 0..57, eta in [1e-3,1e6]: no penetrability and no phase shift, a finite shift factor; non-trivial: every case" ) {
  unsigned l = unsigned( g.chance( 75 ) ? g.below( 6 ) : g.below( 58 ) ); double eta = g.logreal( 1e-3, 1e6 ); c.note( "l=", l, " eta=", eta, " rho=0" ); c.nontrivial();
  double p = rm::calculatePenetrability< rm::ChargedParticle >( l, 0., eta ), s = rm::calculateShiftFactor< rm::ChargedParticle >( l, 0., eta ), f = rm::calculatePhaseShift< rm::ChargedParticle >( l, 0., eta );
  c.require( p == 0., "the penetrability at the threshold is ", p ); c.require( std::isfinite( s ), "the shift factor at the threshold is ", s ); c.require( f == 0., "the phase shift at the threshold is ", f );
}
FACET( "C03", "small rho or large eta", 20000, 200000,
       "l in 0..12, rho in [1e-3,45], eta in [1e-4,100] with rho < 0.05 or eta > 40 and eta/rho < 2000: accurate to 1.2e-4 eta/rho; non-trivial: non-zero penetrability" ) {
  int l = int( g.chance( 75 ) ? g.below( 6 ) : g.below( 13 ) ); double rho, eta;
  if ( g.boolean() ) { rho = g.logreal( 1e-3, 0.05 ); eta = g.logreal( 1e-4, std::min( 40., 2000. * rho ) ); }
  else { rho = g.logreal( 0.05, 45. ); eta = g.real( 40., std::min( 100., 2000. * rho ) ); }
  c.note( "l=", l, " eta=", eta, " rho=", rho ); c.label( rho < 0.05 ? "rho<0.05" : "eta>40" );
  auto r = coulombref::evaluate( l, eta, rho );
  if ( not r.ok ) throw pbt::Skip{};
  LD A2 = r.F * r.F + r.G * r.G, P = rho / A2;
  double p = rm::calculatePenetrability< rm::ChargedParticle >( unsigned( l ), rho, eta ), f = rm::calculatePhaseShift< rm::ChargedParticle >( unsigned( l ), rho, eta );
  if ( p == 0. and P < 1e-80L ) { c.label( "underflow" ); return; }
  if ( P < 1e-250L ) return;
  c.nontrivial();
  c.close( p, double( P ), 4e-5 + 1.2e-4 * eta / rho + ( eta >= 15 ? 3e-4 : 0. ), 0., "penetrability" );
  double err = double( ( std::sin( (LD)f ) * r.G - std::cos( (LD)f ) * r.F ) / std::sqrt( A2 ) );
  c.require( std::fabs( err ) <= 4e-5, "phase shift ", f, " deviates by ", err, " from arg(G+iF) modulo pi" );
}
FACET( "C03", "large rho", 20000, 100000,
       "rho in (45,2000): the result is correct or the call is rejected, never silently wrong; non-trivial: accepted" ) {
  auto k = charged( g, 45., g.chance( 70 ) ? 90. : 2000. );
  c.note( "l=", k.l, " eta=", k.eta, " rho=", k.rho );
  double p;
  try { p = rm::calculatePenetrability< rm::ChargedParticle >( unsigned( k.l ), k.rho, k.eta ); }
  catch ( const std::exception& ) { c.label( "rejected" ); return; }
  auto r = coulombref::evaluate( k.l, k.eta, k.rho );
  if ( not r.ok ) throw pbt::Skip{};
  c.nontrivial(); c.label( "accepted" );
  double P = double( k.rho / ( r.F * r.F + r.G * r.G ) );
  c.close( p, P, 1e-3, 0., "penetrability" );
}
FACET( "C03", "large l", 20000, 100000, "l in 13..200: correct or rejected, and no access outside of the work arrays; non-trivial: every case" ) {
  int l = int( g.integer( 13, g.chance( 50 ) ? 70 : 200 ) ); double eta = g.chance( 20 ) ? 0. : g.logreal( 0.01, 20. ), rho = g.logreal( 0.5, 40. );
  c.note( "l=", l, " eta=", eta, " rho=", rho ); c.nontrivial();
  double p;
  try { p = rm::calculatePenetrability< rm::ChargedParticle >( unsigned( l ), rho, eta ); }
  catch ( const std::exception& ) { c.label( "rejected" ); return; }
  auto r = coulombref::evaluate( l, eta, rho );
  if ( not r.ok ) throw pbt::Skip{};
  c.label( "accepted" );
  LD P = rho / ( r.F * r.F + r.G * r.G );
  if ( p == 0. and P < 1e-80L ) return;
  if ( P < 1e-250L ) return;
  c.close( p, double( P ), 6e-5 + 1.5e-4 * eta / rho + ( eta >= 15 ? 3e-4 : 0. ), 0., "penetrability" );
}

// ------------------------------------------------------------------------------------ C04
FACET( "C04", "coulomb phase shift", 2000000, 3000000,
       "l in 0..20, eta in (0,60], or infinite as it is exactly at the threshold of a channel: sum of arctan(eta/n), n = 1..l; non-trivial: l > 0" ) {
  int l = int( g.chance( 60 ) ? g.below( 6 ) : g.below( 21 ) ); double eta = g.chance( 50 ) ? g.logreal( 1e-4, 60. ) : g.real( 0.01, 60. );
  if ( g.chance( 3 ) ) { eta = std::numeric_limits< double >::infinity(); c.label( "threshold" ); }
  c.note( "l=", l, " eta=", eta ); c.nontrivial( l > 0 );
  double w = rm::calculateCoulombPhaseShift< rm::ChargedParticle >( l, eta );
  if ( l == 0 ) { c.require( w == 0., "the Coulomb phase shift for l = 0 is ", w ); return; }
  double sum = 0, cot = 0, tol = 0;
  for ( int n = 1; n <= l; ++n ) { sum += std::atan( eta / n ); double t = 1. / std::tan( eta / n ); cot += t; tol += 1e-14 * ( 1 + t * t ) * ( 1 + eta / n ); }
  if ( std::fabs( w - sum ) <= 1e-13 * ( 1 + sum ) ) return;
  if ( std::fabs( w - cot ) <= tol ) { c.finding( "coulomb-phase-shift-cotangent" ); return; }
  c.fail( "the Coulomb phase shift is ", w, ", expected ", sum );
}
template< class T > static void trivialType( pbt::Case& c, unsigned l, double rho, double eta, const char* name ) {
  c.require( rm::calculatePenetrability< T >( l, rho, eta ) == 1., name, ": the penetrability is not 1" );
  c.require( rm::calculateShiftFactor< T >( l, rho, eta ) == 0., name, ": the shift factor is not 0" );
  c.require( rm::calculatePhaseShift< T >( l, rho, eta ) == 0., name, ": the phase shift is not 0" );
  c.require( rm::calculateCoulombPhaseShift< T >( int( l ), eta ) == 0., name, ": the Coulomb phase shift is not 0" );
}
FACET( "C04", "photon and fission channels", 1000000, 5000000, "l in 0..200, any rho and eta; non-trivial: every case" ) {
  unsigned l = unsigned( g.below( g.chance( 70 ) ? 8 : 200 ) ); double rho = anyRho( g ), eta = anyEta( g );
  c.note( "l=", l, " rho=", rho, " eta=", eta ); c.nontrivial();
  trivialType< rm::Photon >( c, l, rho, eta, "photon" );
  trivialType< rm::Fission >( c, l, rho, eta, "fission" );
  c.require( rm::calculateCoulombPhaseShift< rm::Neutron >( int( l ), eta ) == 0., "neutron: the Coulomb phase shift is not 0" );
}

// ------------------------------------------------------------------------------------ C05
static std::set< int > twice( pbt::Case& c, const std::vector< double >& v ) { // as a set of 2J, checking form and order
  std::set< int > s;
  for ( std::size_t i = 0; i < v.size(); ++i ) {
    c.require( v[i] * 2 == std::floor( v[i] * 2 ) and v[i] >= 0, "the value ", v[i], " is not a half integer" );
    if ( i > 0 ) c.require( v[i] > v[i-1], "the values are not in increasing order" );
    c.require( s.insert( int( v[i] * 2 ) ).second, "the value ", v[i], " is given twice" );
  }
  return s;
}
static void couple( std::set< int >& out, int a, int b ) { for ( int x = std::abs( a - b ); x <= a + b; x += 2 ) out.insert( x ); }
static std::string show( const std::set< int >& s ) { std::string o; for ( int x : s ) o += ( o.empty() ? "" : " " ) + ( x % 2 ? std::to_string( x ) + "/2" : std::to_string( x / 2 ) ); return "{" + o + "}"; }
static int halfInteger( pbt::Src& g ) { return int( g.chance( 80 ) ? g.below( 16 ) : g.below( 200 ) ); } // twice the spin
FACET( "C05", "channel spin", 300000, 2000000, "spins i and I up to 100 in steps of 1/2: exactly |i-I| .. i+I; non-trivial: both spins non-zero" ) {
  int i = halfInteger( g ), I = halfInteger( g ); c.note( "i=", i / 2., " I=", I / 2. ); c.nontrivial( i > 0 and I > 0 );
  std::set< int > want; couple( want, i, I );
  auto got = twice( c, rm::possibleChannelSpinValues( i / 2., I / 2. ) );
  c.require( got == want, "got ", show( got ), ", expected ", show( want ) );
}
FACET( "C05", "total angular momentum from channel spin", 300000, 2000000, "l up to 100, s up to 100: exactly |l-s| .. l+s; non-trivial: l and s non-zero" ) {
  int l = int( g.chance( 80 ) ? g.below( 8 ) : g.below( 101 ) ), s = halfInteger( g ); c.note( "l=", l, " s=", s / 2. ); c.nontrivial( l > 0 and s > 0 );
  std::set< int > want; couple( want, 2 * l, s );
  auto got = twice( c, rm::possibleChannelTotalAngularMomentumValues( unsigned( l ), s / 2. ) );
  c.require( got == want, "got ", show( got ), ", expected ", show( want ) );
}
FACET( "C05", "total angular momentum from particle spins", 600000, 4000000,
       "l, i, I: the union over the channel spins; non-trivial: all three non-zero" ) {
  int l = int( g.chance( 80 ) ? g.below( 8 ) : g.below( 60 ) ), i = g.chance( 60 ) ? int( g.below( 2 ) ) : halfInteger( g ), I = halfInteger( g );
  c.note( "l=", l, " i=", i / 2., " I=", I / 2. ); c.nontrivial( l > 0 and i > 0 and I > 0 );
  c.label( i <= 1 ? "i<=1/2" : "i>1/2" );
  std::set< int > spins, want, known;
  couple( spins, i, I ); for ( int s : spins ) couple( want, 2 * l, s );
  auto got = twice( c, rm::possibleChannelTotalAngularMomentumValues( unsigned( l ), i / 2., I / 2. ) );
  if ( got == want ) return;
  for ( int x = std::abs( std::abs( 2 * l - I ) - i ); x <= 2 * l + I + i; x += 2 ) known.insert( x );
  if ( i > 1 and got == known ) { c.finding( "missing-low-J-for-incident-spin-above-one-half" ); return; }
  c.fail( "got ", show( got ), ", expected ", show( want ) );
}

// ------------------------------------------------------------------------------------ C06
FACET( "C06", "quantum number identifier", 2000000, 4000000,
       "l up to 10^6, s and J half integers up to 10^6, both parities: the text names exactly these quantum numbers; non-trivial: a half integer" ) {
  auto value = [&] { return int( g.chance( 80 ) ? g.below( 24 ) : g.logreal( 1., 2e6 ) ); };
  unsigned l = unsigned( g.chance( 80 ) ? g.below( 12 ) : g.logreal( 1., 1e6 ) ); int s = value(), J = value(); short pi = g.boolean() ? short( 1 ) : short( -1 );
  c.note( "l=", l, " s=", s / 2., " J=", J / 2., " parity=", int( pi ) ); c.nontrivial( s % 2 or J % 2 );
  rm::ChannelQuantumNumbers q( l, s / 2., J / 2., pi );
  c.require( q.orbitalAngularMomentum() == l and q.spin() == s / 2. and q.totalAngularMomentum() == J / 2. and q.parity() == pi, "the accessors do not return the values given" );
  auto half = []( int x ) { return x % 2 ? std::to_string( x ) + "/2" : std::to_string( x / 2 ); };
  std::string want = "{" + std::to_string( l ) + "," + half( s ) + "," + half( J ) + ( pi > 0 ? "+" : "-" ) + "}";
  c.require( q.toString() == want, "got ", q.toString(), ", expected ", want );
  auto copy = q; c.require( copy.toString() == want and q.toString() == want, "a copy has another identifier" );
}

int main( int argc, char** argv ) { return pbt::main( argc, argv ); }
