// Generators of the legacy classes' data (Breit-Wigner, unresolved), and their translation to those classes.
#ifndef VERIF_LEGACYGEN
#define VERIF_LEGACYGEN
#include "urref.hpp"
namespace legacygen {
using namespace gen; using namespace urref;
using rmref::R; using rmref::Z;
namespace lr = njoy::resonanceReconstruction::rmatrix::legacy::resolved;
namespace lu = njoy::resonanceReconstruction::rmatrix::legacy::unresolved;
typedef njoy::resonanceReconstruction::rmatrix::SingleLevelBreitWigner SL;
typedef njoy::resonanceReconstruction::rmatrix::MultiLevelBreitWigner ML;

// ------------------------------------------------------------------------------------ Breit-Wigner model
struct Res { double E, el, cap, fis, comp, P, Q, S; };
struct LGroup { int l, J2; std::vector< Res > res; };
struct Bw { Pair pair; double rP, rS, rF, qx; std::vector< LGroup > groups; };

static System asSystem( const Bw& b, const LGroup& g, Chan& c, Group& gr ) {
  System s; s.pairs = { b.pair }; gr.J2 = g.J2; gr.parity = g.l % 2 ? -1 : 1;
  c = Chan{ neutron, 0, g.l, 1, 0., b.rP, b.rS, b.rF, 0., "" }; gr.ch = { c }; s.groups = { gr }; return s; }
static R waveNumber( const Bw& b, R E ) { return urref::waveNumber( b.pair, E ); }
static Pair neutronOn( pbt::Src& g ) {
  System s = pairs( g, false ); return s.pairs[0]; }
static Bw breitWigner( pbt::Src& g, double E, int maxGroups, int maxRes, bool competition ) {
  Bw b; b.pair = neutronOn( g ); b.rP = radius( g ); b.rS = g.chance( 15 ) ? radius( g ) : b.rP; b.rF = g.boolean() ? radius( g ) : b.rS;
  b.qx = competition and g.chance( 40 ) ? ( g.chance( 60 ) ? -E * ( g.chance( 70 ) ? g.real( 0.05, 0.9 ) : g.logreal( 0.5, 1e3 ) ) : g.logreal( 1., 1e6 ) ) : 0.;
  int n = int( maxGroups > 1 ? g.count( 1, maxGroups, 40 ) : 1 ); std::set< std::pair< int, int > > used; int odd = ( b.pair.b.spin2 + 1 ) % 2;
  for ( int i = 0; i < n; ++i ) {
    LGroup gr; gr.l = int( g.below( 5 ) ); gr.J2 = 2 * int( g.below( 6 ) ) + odd; if ( not used.insert( { gr.l, gr.J2 } ).second ) continue;
    int m = int( maxRes > 1 ? g.count( 0, maxRes, 60 ) : g.integer( 0, maxRes ) );
    for ( int j = 0; j < m; ++j ) {
      Res r; double gamma = g.logreal( 1e-6, 1e3 );
      r.cap = g.chance( 10 ) ? 0. : g.logreal( 1e-4, 10. ); r.fis = g.chance( 60 ) ? 0. : g.logreal( 1e-4, 10. );
      double wide = r.cap + r.fis + 1e-3;
      switch ( g.below( 4 ) ) {
        case 0: r.E = g.logreal( 1e-3, 1e6 ); break; case 1: r.E = -g.logreal( 1e-3, 1e4 ); break;
        case 2: r.E = E + wide * g.real( -3., 3. ); break; default: r.E = E * g.real( 0.5, 1.7 ); break; }
      if ( r.E == 0. ) r.E = 1.;
      R k = waveNumber( b, r.E );
      if ( g.chance( 85 ) ) { r.P = double( hardsphere::PS( gr.l, k * b.rP ).P ); r.S = double( hardsphere::PS( gr.l, k * b.rS ).S ); }
      else { r.P = g.logreal( 1e-6, 10. ); r.S = -g.real( 0., 4. ); }
      r.Q = g.logreal( 1e-3, 10. ); r.comp = b.qx != 0. and g.chance( 80 ) ? g.logreal( 1e-4, 10. ) : 0.;
      r.el = r.P * gamma; gr.res.push_back( r ); }
    b.groups.push_back( gr ); }
  return b;
}
static void describe( pbt::Case& c, const Bw& b, double E ) {
  if ( not c.verbose ) return;
  c.note( "E=", E, " masses ", b.pair.a.mass, " ", b.pair.b.mass, " I=", b.pair.b.spin2, "/2 radii ", b.rP, " ", b.rS, " ", b.rF, " QX=", b.qx );
  for ( auto& g : b.groups ) { c.note( "l=", g.l, " J=", g.J2, "/2" ); for ( auto& r : g.res )
    c.note( "Er=", r.E, " elastic ", r.el, " capture ", r.cap, " fission ", r.fis, " competition ", r.comp, " P ", r.P, " Q ", r.Q, " S ", r.S ); } }
static rm::Channel< rm::Neutron > channelFor( const Bw& b, const LGroup& g ) { Chan c; Group gr; System s = asSystem( b, g, c, gr ); return channelOf< rm::Neutron >( s, gr, c ); }
static lr::Resonance resonance( const Res& r ) { return lr::Resonance( eV( r.E ), eV( r.el ), eV( r.cap ), eV( r.fis ), eV( r.comp ), r.P, r.Q, r.S ); }
template< class F > static lr::SpinGroup< F > spinGroupOf( const Bw& b, const LGroup& g ) {
  std::vector< lr::Resonance > v; for ( auto& r : g.res ) v.push_back( resonance( r ) );
  return lr::SpinGroup< F >( channelFor( b, g ), lr::ResonanceTable( std::move( v ) ), eV( b.qx ) ); }
template< class F > static lr::CompoundSystem< F > systemOf( const Bw& b ) {
  std::vector< lr::SpinGroup< F > > v; for ( auto& g : b.groups ) v.push_back( spinGroupOf< F >( b, g ) ); return lr::CompoundSystem< F >( std::move( v ) ); }

// ------------------------------------------------------------------------------------ unresolved resonances
static Ur unresolved( pbt::Src& g, int maxGroups ) {
  Ur u; u.pair = neutronOn( g ); u.rP = radius( g ); u.rF = g.boolean() ? radius( g ) : u.rP; int n = int( g.count( 1, maxGroups, 30 ) ), odd = ( u.pair.b.spin2 + 1 ) % 2; std::set< std::pair< int, int > > used;
  double lo = g.logreal( 10., 1e4 ), hi = lo * ( 1 + g.logreal( 1e-2, 100. ) );
  for ( int i = 0; i < n; ++i ) { UGroup x; x.l = int( g.below( 4 ) ); x.J2 = 2 * int( g.below( 6 ) ) + odd; if ( not used.insert( { x.l, x.J2 } ).second ) continue;
    x.E = { lo }; int m = int( g.count( 0, 3, 40 ) ); for ( int j = 0; j < m; ++j ) x.E.push_back( lo + ( hi - lo ) * g.real( 0.02, 0.98 ) ); x.E.push_back( hi ); std::sort( x.E.begin(), x.E.end() ); x.E.erase( std::unique( x.E.begin(), x.E.end() ), x.E.end() );
    bool f = g.boolean(), cx = g.chance( 40 ), zeros = g.chance( 15 );
    for ( std::size_t j = 0; j < x.E.size(); ++j ) { x.D.push_back( g.logreal( 0.1, 1e4 ) ); x.g0.push_back( g.logreal( 1e-6, 10. ) ); x.gg.push_back( g.logreal( 1e-4, 1. ) );
      x.gf.push_back( f and not ( zeros and g.boolean() ) ? g.logreal( 1e-4, 10. ) : 0. ); x.gx.push_back( cx ? g.logreal( 1e-4, 10. ) : 0. ); }
    x.mu = int( g.integer( 1, 4 ) ); x.nu = int( f ? g.integer( 1, 4 ) : g.below( 5 ) ); x.la = int( cx ? g.integer( 1, 4 ) : g.below( 5 ) ); u.groups.push_back( x ); }
  return u;
}
static void describe( pbt::Case& c, const Ur& u, double E ) {
  if ( not c.verbose ) return; c.note( "E=", E, " masses ", u.pair.a.mass, " ", u.pair.b.mass, " I=", u.pair.b.spin2, "/2 radii ", u.rP, " ", u.rF );
  for ( auto& x : u.groups ) { c.note( "l=", x.l, " J=", x.J2, "/2 degrees ", x.mu, " ", x.nu, " ", x.la ); for ( std::size_t i = 0; i < x.E.size(); ++i ) c.note( "at ", x.E[i], " spacing ", x.D[i], " elastic ", x.g0[i], " capture ", x.gg[i], " fission ", x.gf[i], " competition ", x.gx[i] ); } }
static lu::ResonanceTable tableOf( const UGroup& x ) {
  std::vector< lu::Resonance > v; for ( std::size_t i = 0; i < x.E.size(); ++i ) v.emplace_back( eV( x.E[i] ), eV( x.D[i] ), rootEV( x.g0[i] ), eV( x.gg[i] ), eV( x.gf[i] ), eV( x.gx[i] ) );
  return lu::ResonanceTable( std::move( v ), lu::Degrees( x.mu, 0, x.nu, x.la ) ); }
static lu::SpinGroup groupOf( const Ur& u, const UGroup& x ) { Bw b; b.pair = u.pair; b.rP = b.rS = u.rP; b.rF = u.rF; LGroup l{ x.l, x.J2, {} }; return lu::SpinGroup( channelFor( b, l ), tableOf( x ) ); }
static lu::CompoundSystem systemOf( const Ur& u ) { std::vector< lu::SpinGroup > v; for ( auto& x : u.groups ) v.push_back( groupOf( u, x ) ); return lu::CompoundSystem( std::move( v ) ); }
}
#endif
