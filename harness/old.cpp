// Harness for the older interface: breitWigner::singleLevel, breitWigner::multiLevel and reichMoore applied to ENDF data.
#include "resonanceReconstruction.hpp"
#include "pbt.hpp"
#include "endfgen.hpp"
namespace rr = njoy::resonanceReconstruction;
using rmref::R; using rmref::Z;
using namespace endfgen;
template< class F > static bool throws( F&& f ) { try { f(); } catch ( const std::exception& ) { return true; } return false; }
static rr::Quantity< dimwits::ElectronVolts > eV( double x ) { return x * dimwits::electronVolts; }

static void compare( pbt::Case& c, const rr::breitWigner::CrossSection& got, const Xs& w, const char* what ) {
  c.close( got.elastic.value, double( w.el ), 1e-12, double( w.eEl ), what, ": elastic" ); c.close( got.capture.value, double( w.cap ), 1e-12, double( w.eCap ), what, ": capture" );
  c.close( got.fission.value, double( w.fis ), 1e-12, double( w.eFis ), what, ": fission" ); }

// the cross sections at E, before and after an evaluation at E2
typedef std::pair< rr::breitWigner::CrossSection, rr::breitWigner::CrossSection > Two;
template< class A > static Two evaluate( const endf::ResonanceRange& r, double E, double E2 ) {
  std::vector< rr::breitWigner::CrossSection > out; A()( r, [&] ( auto&& type ) { out.push_back( type( eV( E ) ) ); type( eV( E2 ) ); out.push_back( type( eV( E ) ) ); return 0; } ); return { out.at( 0 ), out.at( 1 ) }; }
static void both( pbt::Case& c, const Two& x, const Xs& want ) { compare( c, x.first, want, "cross sections" );
  c.require( x.first.elastic.value == x.second.elastic.value and x.first.capture.value == x.second.capture.value and x.first.fission.value == x.second.fission.value, "a later evaluation differs" ); }

// ------------------------------------------------------------------------------------ Breit-Wigner
template< class A > static void checkBW( pbt::Src& g, pbt::Case& c, bool multi ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = data( g, E, 3, 6, false ); describe( c, d, E ); std::size_t most = 0; for ( auto& v : d.l ) { most = std::max( most, v.res.size() ); if ( v.lrx ) c.label( "competition" ); } c.nontrivial( most > 1 );
  if ( d.nro ) c.label( "tabulated radius" );
  Xs want = expectedBW( d, E, multi ); auto r = breitWigner( d, multi ); double E2 = g.logreal( 1e-3, 1e6 );
  both( c, evaluate< A >( r, E, E2 ), want );
}
FACET( "C18", "single-level Breit-Wigner", 1000000, 12000000, "1-3 l values, 0-6 resonances of all J (bound, at, near, far), fission, competition (open and closed), constant and tabulated radii, all NRO and NAPS; non-trivial: several resonances for an l" ) { checkBW< rr::breitWigner::singleLevel::Apply >( g, c, false ); }
FACET( "C18", "multi-level Breit-Wigner", 1000000, 12000000, "as for single-level, interference between resonances of the same l and J; non-trivial: several resonances for an l" ) { checkBW< rr::breitWigner::multiLevel::Apply >( g, c, true ); }

// ------------------------------------------------------------------------------------ Reich-Moore
static Xs expectedRM( const Data& d, double E ) {
  Xs out; R kk = waveNumber( d, E ), f = rmref::pi / ( kk * kk );
  for ( auto& v : d.l ) {
    R a = channelRadius( d, v.apl, E ), ap = phaseRadius( d, v.apl, E ), phi = rmref::phase( v.l, kk * ap ), dphi = 4e-15L * ( 1 + kk * ap ), sn = std::sin( phi ); if ( d.nro ) dphi += 1e-15L * kk * ap;
    // the penetrability goes with the amplitudes
    R P = hardsphere::PS( v.l, kk * a ).P; rmref::Wave n{ 1, 0, phi, 0, true }, one{ 1, 0, 0, 0, true }; n.dP = 1e-14L * ( 2 * v.l + 1 ) * ( d.nro ? 100 : 1 );
    std::map< double, rmref::Group > byJ; R sum = 0;
    for ( auto& r : v.res ) { auto& gr = byJ[r.J]; if ( gr.ch.empty() ) gr.ch.resize( 3 ); R Pr = hardsphere::PS( v.l, waveNumber( d, r.E ) * R( channelRadius( d, v.apl, std::fabs( r.E ) ) ) ).P;
      auto amplitude = [] ( double x ) { return double( ( x < 0 ? -1 : 1 ) * std::sqrt( std::fabs( R( x ) ) / 2 ) ); };
      gr.res.push_back( { r.E, { double( std::sqrt( r.gn / ( 2 * Pr ) * P ) ), amplitude( r.gf ), amplitude( r.gf2 ) }, amplitude( r.gg ) } ); }
    for ( auto& j : byJ ) { auto m = rmref::collision( j.second, { n, one, one }, E, true ); R near = 0; for ( auto& r : j.second.res ) near = std::max( near, ( std::fabs( R( r.E ) ) + E ) * 4e-16L / std::abs( Z( r.E - R( E ), r.el * r.el ) ) );
      R dU = 8 * m.worst + 40 * near * ( 1 + 0 * m.worst ) + 4e-15L + 2 * dphi, g = ( 2 * std::fabs( j.first ) + 1 ) / ( 2 * ( d.I2 + 1 ) ); if ( dU > 1e-6L ) throw pbt::Skip{};
      // U = exp(-2 i phi) for the elastic channel
      Z u = std::polar( R( 1 ), -2 * phi ) * ( R( 1 ) + Z( 0, 2 ) * m.T[0][0] ); R fis = 4 * ( std::norm( m.T[0][1] ) + std::norm( m.T[0][2] ) ), el = std::norm( R( 1 ) - u ), cap = 1 - std::norm( u ) - fis;
      out.el += f * g * el; out.eEl += f * g * ( 2 * std::abs( R( 1 ) - u ) * dU + dU * dU ); out.fis += f * g * fis; out.eFis += f * g * ( 4 * std::sqrt( fis ) * dU + 2 * dU * dU ); out.cap += f * g * cap; out.eCap += f * g * 8 * dU; sum += g; }
    out.el += f * ( 2 * v.l + 1 - sum ) * 4 * sn * sn; out.eEl += f * 4 * ( 2 * v.l + 1 + sum ) * ( 2 * std::fabs( sn ) * dphi + dphi * dphi + 1e-13L * sn * sn ); }
  return out;
}
FACET( "C19", "Reich-Moore", 1000000, 12000000, "1-3 l values with or without their own radius, 0-6 resonances of all J of either sign (bound, at, near, far), none, one or two fission channels of either sign, constant and tabulated radii, all NRO and NAPS; non-trivial: several resonances for an l" ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = data( g, E, 3, 6, true ); describe( c, d, E ); std::size_t most = 0; for ( auto& v : d.l ) most = std::max( most, v.res.size() ); c.nontrivial( most > 1 ); if ( d.nro ) c.label( "tabulated radius" );
  Xs want = expectedRM( d, E ); auto r = reichMoore( d ); double E2 = g.logreal( 1e-3, 1e6 );
  both( c, evaluate< rr::reichMoore::Apply >( r, E, E2 ), want );
}
FACET( "C19", "order of the data", 300000, 3000000, "l values and resonances in another order give the same cross sections; non-trivial: several resonances for an l" ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = data( g, E, 3, 6, true ); describe( c, d, E ); for ( auto& v : d.l ) c.nontrivial( v.res.size() > 1 ); Xs want = expectedRM( d, E );
  auto shuffle = [&] ( auto& v ) { for ( std::size_t i = v.size(); i > 1; --i ) std::swap( v[i-1], v[ g.below( i ) ] ); }; shuffle( d.l ); for ( auto& v : d.l ) shuffle( v.res );
  compare( c, evaluate< rr::reichMoore::Apply >( reichMoore( d ), E, E ).first, want, "in another order" );
}
// ------------------------------------------------------------------------------------ what is refused
template< class A > static bool refused( const endf::ResonanceRange& r, double E ) { return throws( [&] { A()( r, [&] ( auto&& type ) { return double( type( eV( E ) ).elastic.value ); } ); } ); }
static void refusals( pbt::Src& g, pbt::Case& c, bool rm ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = data( g, E, 3, 3, rm ); for ( auto& v : d.l ) { v.lrx = 0; for ( auto& r : v.res ) r.gx = 0.; } c.nontrivial(); describe( c, d, E );
  auto make = [&] ( int kind ) { return kind == 0 ? breitWigner( d, false ) : kind == 1 ? breitWigner( d, true ) : reichMoore( d ); };
  auto no = [&] ( int kind, const endf::ResonanceRange& r ) { return kind == 0 ? refused< rr::breitWigner::singleLevel::Apply >( r, E ) : kind == 1 ? refused< rr::breitWigner::multiLevel::Apply >( r, E ) : refused< rr::reichMoore::Apply >( r, E ); };
  int kind = rm ? 2 : int( g.below( 2 ) ); c.require( not no( kind, make( kind ) ), "valid data are refused" );
  switch ( g.below( 4 ) ) {
    case 0: { int other = ( kind + 1 + int( g.below( 2 ) ) ) % 3; c.require( no( kind, make( other ) ), "the parameters of another formalism are accepted" ); break; }
    case 1: { auto r = make( kind ); r.NRO_ = 1; r.radius_ = std::nullopt; c.require( no( kind, r ), "a missing table of radii is accepted" ); break; }
    case 2: { d.l[ g.below( d.l.size() ) ].l = int( g.integer( 5, 20 ) ); c.require( no( kind, make( kind ) ), "an orbital angular momentum above 4 is accepted" ); break; }
    default: { d.naps = int( g.integer( 3, 10 ) ); if ( not d.nro and g.boolean() ) d.naps = 2; c.require( no( kind, make( kind ) ), "NAPS=", d.naps, " with NRO=", d.nro, " is accepted" ); } }
}
FACET( "C18", "unsupported data are refused", 150000, 900000, "another formalism, no table although NRO=1, l above 4, unknown NAPS; non-trivial: every case" ) { refusals( g, c, false ); }
FACET( "C19", "unsupported data are refused", 150000, 900000, "another formalism, no table although NRO=1, l above 4, unknown NAPS; non-trivial: every case" ) { refusals( g, c, true ); }
int main( int argc, char** argv ) { return pbt::main( argc, argv ); }
