// Harness for rmatrix::fromENDF and the Reconstructor: ENDF resonance ranges of every supported kind.
#include "resonanceReconstruction.hpp"
#include "urref.hpp"
#include "endfgen.hpp"
using namespace gen;
using rmref::R; using rmref::Z;
using endfgen::Data; using endfgen::Lv; using endfgen::Rs; using endfgen::Xs; using endfgen::channelRadius; using endfgen::phaseRadius;
typedef njoy::ENDFtk::section::Type< 2, 151 > S;
template< class F > static bool throws( F&& f ) { try { f(); } catch ( const std::exception& ) { return true; } return false; }
static const double echarge = 1.6021766208e-19;

static rm::Reconstructor reconstructor( const endf::ResonanceRange& r, double mn, const std::string& target ) {
  return rm::fromENDF( r, mn * dimwits::daltons, echarge * dimwits::coulombs, rm::ParticleID( "n" ), rm::ParticleID( target ) ); }
static const char* target( const Data& d ) { return d.I2 % 2 ? "U235" : "Fe56"; }
static Pair pairOf( const Data& d ) { return Pair{ { "n", d.mn, 0, 1, 1 }, { target( d ), d.awri * d.mn, 0, d.I2, 1 }, "" }; }
// the cross sections at E, the same before and after an evaluation at another energy and for a copy
static Sigma evaluate( pbt::Src& g, pbt::Case& c, rm::Reconstructor& rec, double E ) {
  Sigma first = rec( eV( E ) ); rec( eV( g.chance( 20 ) ? E : g.logreal( 1e-3, 1e6 ) ) ); auto copy = rec; Sigma again = rec( eV( E ) ), other = copy( eV( E ) );
  c.require( again.size() == first.size() and other.size() == first.size(), "a later evaluation has other reactions" );
  for ( auto& x : first ) c.require( again[x.first].value == x.second.value and other[x.first].value == x.second.value, "a later evaluation differs for ", x.first.symbol() );
  return first; }

// ------------------------------------------------------------------------------------ Reich-Moore
// one block per (l,s,J): the definition of LRF=3
static bool expectedRM( const Data& d, double E, Expected& out ) {
  System s; s.pairs = { pairOf( d ), pairOf( d ) }; s.pairs[1].id = "fission";
  for ( int l = 0; l < d.nlsc; ++l ) {
    const Lv* v = nullptr; for ( auto& x : d.l ) if ( x.l == l ) v = &x;
    double apl = v ? v->apl : 0., a = channelRadius( d, apl, E ), ap = phaseRadius( d, apl, E );
    for ( int s2 = std::abs( d.I2 - 1 ); s2 <= d.I2 + 1; s2 += 2 ) for ( int J2 = std::abs( 2 * l - s2 ); J2 <= 2 * l + s2; J2 += 2 ) {
      int o2 = s2 == d.I2 - 1 ? d.I2 + 1 : d.I2 - 1; bool two = o2 >= 0 and J2 >= std::abs( 2 * l - o2 ) and J2 <= 2 * l + o2; // both channel spins are possible: the sign of J tells
      Group gr; gr.J2 = J2; gr.parity = l % 2 ? -1 : 1; gr.ch = { { neutron, 0, l, s2, 0., a, a, ap, 0., "" } }; bool f1 = false, f2 = false;
      std::vector< const Rs* > mine;
      if ( v ) for ( auto& r : v->res ) if ( std::fabs( r.J ) == J2 / 2. and ( not two or ( r.J < 0 ) == ( s2 < d.I2 ) ) ) { mine.push_back( &r ); f1 = f1 or r.gf != 0; f2 = f2 or r.gf2 != 0; }
      if ( f1 ) gr.ch.push_back( { fission, 1, l, 0, 0., a, a, ap, 0., "f1" } ); if ( f2 ) gr.ch.push_back( { fission, 1, l, 0, 0., a, a, ap, 0., "f2" } );
      auto amplitude = [] ( double x ) { return double( ( x < 0 ? -1 : 1 ) * std::sqrt( std::fabs( R( x ) ) / 2 ) ); };
      for ( auto* r : mine ) { R P = hardsphere::PS( l, endfgen::waveNumber( d, r->E ) * R( channelRadius( d, apl, std::fabs( r->E ) ) ) ).P;
        Reso x{ r->E, { double( std::sqrt( r->gn / ( 2 * P ) ) ) }, amplitude( r->gg ) }; if ( f1 ) x.w.push_back( amplitude( r->gf ) ); if ( f2 ) x.w.push_back( amplitude( r->gf2 ) ); gr.res.push_back( x ); }
      s.groups = { gr }; if ( not expected( s, gr, E, true, out ) ) return false; } }
  return true;
}
FACET( "C20", "cross sections", 120000, 2500000,
       "1-3 l values with or without their own radius, NLSC up to two more, 0-5 resonances each (bound, at, near, far) of every J and both channel spins, none to two fission channels of either sign, constant and tabulated radii, all NRO and NAPS, target spin 0 to 11/2; non-trivial: several resonances for an l" ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 3, 5, true, true ); endfgen::describe( c, d, E ); c.note( "NLSC ", d.nlsc, " neutron mass ", d.mn );
  std::size_t most = 0; for ( auto& v : d.l ) { most = std::max( most, v.res.size() ); for ( auto& r : v.res ) if ( r.J < 0 ) c.label( "negative J" ); } c.nontrivial( most > 1 ); if ( d.nro ) c.label( "tabulated radius" );
  Expected want; if ( not expectedRM( d, E, want ) ) throw pbt::Skip{};
  auto rec = reconstructor( endfgen::reichMoore( d ), d.mn, target( d ) ); c.require( rec.isResolved() and not rec.isUnresolved(), "not resolved" ); compare( c, evaluate( g, c, rec, E ), want, "cross sections" );
}
FACET( "C20", "resonances at the same energy", 20000, 200000, "two resonances at the same energy, of different l but the same J and parity; non-trivial: every case" ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 1, 1, true, true ); d.I2 = 2 * int( g.integer( 1, 3 ) ); d.nlsc = 3; double J = d.I2 / 2. - 0.5;
  Rs r; r.E = g.logreal( 1e-1, 1e5 ); r.J = J; r.gg = g.logreal( 1e-2, 1. ); r.gf = r.gf2 = r.gx = 0; d.l.clear();
  for ( int l = 0; l < 3; ++l ) { Lv v; v.l = l; v.qx = v.apl = 0; v.lrx = 0; Rs x = r; x.gg = g.logreal( 1e-2, 1. ); x.gn = double( hardsphere::PS( l, endfgen::waveNumber( d, x.E ) * R( channelRadius( d, 0., x.E ) ) ).P ) * g.logreal( 1e-2, 1e2 ); if ( l != 1 ) v.res.push_back( x ); d.l.push_back( v ); }
  E = r.E + r.gg * g.real( -3., 3. ); if ( E <= 0 ) E = r.E; endfgen::describe( c, d, E ); c.nontrivial(); Expected want; if ( not expectedRM( d, E, want ) ) throw pbt::Skip{};
  auto rec = reconstructor( endfgen::reichMoore( d ), d.mn, target( d ) ); auto got = rec( eV( E ) );
  auto agrees = [&] ( const Expected& w ) { for ( auto& x : w.sigma ) if ( not ( std::fabs( got[ rm::ReactionID( x.first ) ].value - double( x.second ) ) <= 10 * double( w.error.at( x.first ) ) ) ) return false; return true; };
  for ( auto& w : want.sigma ) c.require( got.count( rm::ReactionID( w.first ) ), "no cross section for ", w.first ); c.require( got.size() == want.sigma.size(), "other reactions" );
  if ( agrees( want ) ) return;
  // the known finding: the two are merged into one resonance with the capture width of the last one
  System s; s.pairs = { pairOf( d ) }; Group both; both.J2 = int( 2 * J ); both.parity = 1; Reso merged; merged.E = r.E; Expected other; Data without = d; for ( auto& v : without.l ) v.res.clear(); 
  for ( int l : { 0, 2 } ) { const Rs& x = d.l[std::size_t( l )].res[0]; double a = channelRadius( d, 0., E ); both.ch.push_back( { neutron, 0, l, l ? d.I2 + 1 : d.I2 - 1, 0., a, a, phaseRadius( d, 0., E ), 0., "" } );
    R P = hardsphere::PS( l, endfgen::waveNumber( d, r.E ) * R( channelRadius( d, 0., r.E ) ) ).P; merged.w.push_back( double( std::sqrt( x.gn / ( 2 * P ) ) ) ); merged.el = double( std::sqrt( R( x.gg ) / 2 ) ); }
  both.res = { merged }; s.groups = { both }; if ( not expectedRM( without, E, other ) or not expected( s, both, E, true, other ) ) throw pbt::Skip{};
  Group empty = both; empty.res.clear(); Expected potential; if ( not expected( s, empty, E, true, potential ) ) throw pbt::Skip{}; for ( auto& x : potential.sigma ) other.sigma[x.first] -= x.second;
  c.require( agrees( other ), "neither right nor explained by the known finding" ); c.finding( "same-energy-different-l" );
}
FACET( "C20", "agreement with the older interface", 60000, 1000000, "the same range through reichMoore::Apply, up to the difference in the physical constants; non-trivial: several resonances for an l" ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 3, 4, true, true ); d.mn = 1.00866491582; d.nlsc = int( d.l.size() ); for ( auto& v : d.l ) for ( auto& r : v.res ) { r.J = std::fabs( r.J ); }
  endfgen::describe( c, d, E ); std::size_t most = 0; for ( auto& v : d.l ) most = std::max( most, v.res.size() ); c.nontrivial( most > 1 ); Expected want; if ( not expectedRM( d, E, want ) ) throw pbt::Skip{};
  auto range = endfgen::reichMoore( d ); auto rec = reconstructor( range, d.mn, target( d ) ); auto got = rec( eV( E ) ); double el = 0, cap = 0, fis = 0;
  rr::reichMoore::Apply()( range, [&] ( auto&& type ) { auto x = type( rr::Quantity< dimwits::ElectronVolts >( E * dimwits::electronVolts ) ); el = x.elastic.value; cap = x.capture.value; fis = x.fission.value; return 0; } );
  auto id = [&] ( const char* what ) { Pair p = pairOf( d ); return rm::ReactionID( pairId( p ) + "->" + ( *what ? std::string( what ) : pairId( p ) ) ); };
  double all = el + std::fabs( cap ) + fis; // the wave numbers differ by 1e-7
  c.close( got[ id( "" ) ].value, el, 1e-4, 1e-4 * all, "elastic" ); c.close( got[ id( "capture" ) ].value, cap, 1e-4, 1e-4 * all, "capture" );
  if ( fis != 0 or got.count( id( "fission" ) ) ) c.close( got[ id( "fission" ) ].value, fis, 1e-4, 1e-4 * all, "fission" );
}

// ------------------------------------------------------------------------------------ Breit-Wigner
static void compareXs( pbt::Case& c, const Data& d, Sigma got, const Xs& w, bool fissile ) {
  Pair p = pairOf( d ); auto value = [&] ( std::string what ) { auto it = got.find( rm::ReactionID( pairId( p ) + "->" + what ) ); c.require( it != got.end(), "no cross section for ", what ); return it->second.value; };
  c.close( value( pairId( p ) ), double( w.el ), 1e-12, double( w.eEl ), "elastic" ); c.close( value( "capture" ), double( w.cap ), 1e-12, double( w.eCap ), "capture" );
  std::size_t n = 2; auto it = got.find( rm::ReactionID( pairId( p ) + "->fission" ) ); if ( fissile ) c.require( it != got.end(), "no fission cross section" ); if ( it != got.end() ) { ++n; c.close( it->second.value, double( w.fis ), 1e-12, double( w.eFis ), "fission" ); }
  c.require( got.size() == n, got.size(), " reactions" ); }
static void breitWigner( pbt::Src& g, pbt::Case& c, bool multi ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 4, 6, false, true ); endfgen::describe( c, d, E ); c.note( "neutron mass ", d.mn );
  std::size_t most = 0; bool fissile = false; for ( auto& v : d.l ) { most = std::max( most, v.res.size() ); if ( v.lrx ) c.label( "competition" ); for ( auto& r : v.res ) fissile = fissile or r.gf != 0; } c.nontrivial( most > 1 ); if ( d.nro ) c.label( "tabulated radius" );
  Xs want = endfgen::expectedBW( d, E, multi ); auto rec = reconstructor( endfgen::breitWigner( d, multi ), d.mn, target( d ) ); c.require( rec.isResolved() and not rec.isUnresolved(), "not resolved" ); compareXs( c, d, evaluate( g, c, rec, E ), want, fissile );
}
FACET( "C22", "single-level Breit-Wigner", 450000, 6000000, "1-4 l values, 1-6 resonances of all J (bound, at, near, far), fission, competition per l (open and closed), constant and tabulated radii, all NRO and NAPS; non-trivial: several resonances for an l" ) { breitWigner( g, c, false ); }
FACET( "C22", "multi-level Breit-Wigner", 450000, 6000000, "as for single-level, interference between resonances of the same l and J; non-trivial: several resonances for an l" ) { breitWigner( g, c, true ); }

// ------------------------------------------------------------------------------------ unresolved
struct Unres { Data d; urref::Ur u; int kind; std::vector< double > es; };
static Unres unresolved( pbt::Src& g ) {
  Unres x; Data& d = x.d; d.modern = true; d.mn = g.chance( 30 ) ? g.real( 1., 1.02 ) : 1.00866491582; d.awri = g.real( 10., 250. ); d.ap = g.real( 0.2, 1.2 ); d.I2 = int( g.below( 12 ) ); d.nro = g.chance( 35 ); d.naps = int( g.below( d.nro ? 3 : 2 ) ); d.nlsc = 0;
  d.el = g.logreal( 10., 1e4 ); d.eh = d.el * ( 1 + g.logreal( 1e-2, 100. ) ); if ( d.nro ) d.tab = endfgen::table( g, d.el ); x.kind = int( g.below( 3 ) ); x.u.pair = pairOf( d );
  auto energies = [&] { std::vector< double > e = { d.el }; int m = int( g.count( 0, 3, 40 ) ); for ( int j = 0; j < m; ++j ) e.push_back( d.el + ( d.eh - d.el ) * g.real( 0.02, 0.98 ) ); e.push_back( d.eh ); std::sort( e.begin(), e.end() ); e.erase( std::unique( e.begin(), e.end() ), e.end() ); return e; };
  x.es = energies(); int n = int( g.integer( 1, 3 ) );
  for ( int l = 0; l < n; ++l ) { std::set< int > Js; for ( int s2 = std::abs( d.I2 - 1 ); s2 <= d.I2 + 1; s2 += 2 ) for ( int J2 = std::abs( 2 * l - s2 ); J2 <= 2 * l + s2; J2 += 2 ) Js.insert( J2 );
    std::vector< int > all( Js.begin(), Js.end() ); int m = int( g.integer( 1, 3 ) ); std::set< int > used;
    for ( int i = 0; i < m; ++i ) { urref::UGroup y; y.l = l; y.J2 = g.pick( all ); if ( not used.insert( y.J2 ).second ) continue; y.E = x.kind == 0 ? std::vector< double >{ d.el, d.eh } : x.kind == 1 ? x.es : energies();
      bool f = x.kind > 0 and g.chance( 60 ), cx = x.kind == 2 and g.chance( 40 ); double D = g.logreal( 0.1, 1e4 ), g0 = g.logreal( 1e-6, 10. ), gg = g.logreal( 1e-4, 1. );
      for ( std::size_t j = 0; j < y.E.size(); ++j ) { bool vary = x.kind == 2; y.D.push_back( vary ? g.logreal( 0.1, 1e4 ) : D ); y.g0.push_back( vary ? g.logreal( 1e-6, 10. ) : g0 ); y.gg.push_back( vary ? g.logreal( 1e-4, 1. ) : gg ); y.gf.push_back( f ? g.logreal( 1e-4, 10. ) : 0. ); y.gx.push_back( cx ? g.logreal( 1e-4, 10. ) : 0. ); }
      y.mu = int( g.integer( 1, 4 ) ); y.nu = f ? int( g.integer( 1, 4 ) ) : x.kind == 0 ? 0 : int( g.below( 5 ) ); y.la = cx ? int( g.integer( 1, 4 ) ) : x.kind < 2 ? 0 : int( g.below( 5 ) ); x.u.groups.push_back( y ); } }
  return x;
}
static endf::ResonanceRange rangeOf( const Unres& x ) {
  const Data& d = x.d; int lmax = 0; for ( auto& y : x.u.groups ) lmax = std::max( lmax, y.l );
  auto fill = [&] ( auto& out, auto&& jvalue ) { typedef typename std::decay_t< decltype( out.lvalues_ ) >::value_type L; out.SPI_ = d.I2 / 2.; out.AP_ = d.ap; out.LSSF_ = 0;
    for ( int l = 0; l <= lmax; ++l ) { L lv{ d.awri, l, {} }; for ( auto& y : x.u.groups ) if ( y.l == l ) lv.jvalues_.push_back( jvalue( y ) ); out.lvalues_.push_back( lv ); } };
  auto common = [] ( auto& j, const urref::UGroup& y ) { j.AJ_ = y.J2 / 2.; j.D_ = y.D[0]; j.GNO_ = y.g0[0]; j.GG_ = y.gg[0]; j.AMUN_ = y.mu; };
  if ( x.kind == 0 ) { S::UnresolvedEnergyIndependent p; fill( p.b, [&] ( const urref::UGroup& y ) { S::UnresolvedEnergyIndependent::JValue< S::Chunk > j; common( j, y ); return j; } ); return endfgen::range( d, 2, 1, p ); }
  if ( x.kind == 1 ) { S::UnresolvedEnergyDependentFissionWidths p; p.energies_ = x.es; fill( p.b, [&] ( const urref::UGroup& y ) { S::UnresolvedEnergyDependentFissionWidths::JValue j; common( j, y ); j.AMUF_ = y.nu; j.GFS_ = y.gf; return j; } ); return endfgen::range( d, 2, 1, p ); }
  S::UnresolvedEnergyDependent p; fill( p.b, [&] ( const urref::UGroup& y ) { S::UnresolvedEnergyDependent::JValue j; j.AJ_ = y.J2 / 2.; j.INT_ = 2; j.AMUN_ = y.mu; j.AMUG_ = 0; j.AMUF_ = y.nu; j.AMUX_ = y.la; j.ES_ = y.E; j.D_ = y.D; j.GX_ = y.gx; j.GNO_ = y.g0; j.GG_ = y.gg; j.GF_ = y.gf; return j; } );
  return endfgen::range( d, 2, 2, p ); }
static void describe( pbt::Case& c, const Unres& x, double E ) {
  if ( not c.verbose ) return; endfgen::describe( c, x.d, E ); c.note( "kind ", x.kind, " from ", x.d.el, " to ", x.d.eh );
  for ( auto& y : x.u.groups ) { c.note( "l=", y.l, " J=", y.J2, "/2 degrees ", y.mu, " ", y.nu, " ", y.la ); for ( std::size_t i = 0; i < y.E.size(); ++i ) c.note( "at ", y.E[i], " spacing ", y.D[i], " elastic ", y.g0[i], " capture ", y.gg[i], " fission ", y.gf[i], " competition ", y.gx[i] ); } }
FACET( "C23", "cross sections", 720000, 10000000,
       "the three ENDF representations (energy-independent, energy-dependent fission widths, energy-dependent), 1-3 l values with 1-3 J each, 2-5 energies, constant and tabulated radii, all NRO and NAPS; non-trivial: several groups" ) {
  Unres x = unresolved( g ); double E = g.chance( 15 ) ? g.pick( x.u.groups[0].E ) : x.d.el + ( x.d.eh - x.d.el ) * g.real( 0., 1. ); if ( E > x.d.eh ) E = x.d.eh; describe( c, x, E ); c.nontrivial( x.u.groups.size() > 1 ); c.label( x.kind == 0 ? "energy-independent" : x.kind == 1 ? "energy-dependent fission" : "energy-dependent" );
  urref::Ur u = x.u; u.rP = channelRadius( x.d, 0., E ); u.rF = phaseRadius( x.d, 0., E ); int lmax = 0; for ( auto& y : u.groups ) lmax = std::max( lmax, y.l );
  Expected want; urref::addPotential( u.pair, u.rF, lmax, E, want ); for ( auto& y : u.groups ) urref::addGroup( u, y, E, want );
  auto rec = reconstructor( rangeOf( x ), x.d.mn, target( x.d ) ); c.require( rec.isUnresolved() and not rec.isResolved(), "not unresolved" ); Sigma got = rec( eV( E ) ); rec( eV( x.d.el ) ); Sigma again = rec( eV( E ) );
  for ( auto& y : got ) c.require( again[y.first].value == y.second.value, "a later evaluation differs for ", y.first.symbol() );
  for ( auto& w : want.sigma ) { auto it = got.find( rm::ReactionID( w.first ) ); c.require( it != got.end(), "no cross section for ", w.first ); c.close( it->second.value, double( w.second ), 0., double( want.error.at( w.first ) ), w.first ); }
  for ( auto& y : got ) c.require( want.sigma.count( y.first.symbol() ) or y.second.value == 0., "unexpected ", y.first.symbol() );
}
FACET( "C23", "grid", 360000, 4000000, "all table energies are grid points, the grid spans exactly the range and has no ratio above 1.25; non-trivial: every case" ) {
  Unres x = unresolved( g ); describe( c, x, 0. ); c.nontrivial(); auto rec = reconstructor( rangeOf( x ), x.d.mn, target( x.d ) ); auto grid = rec.grid(); std::set< double > have; for ( auto& e : grid ) have.insert( e.value );
  for ( auto& y : x.u.groups ) for ( double e : y.E ) c.require( have.count( e ), "the energy ", e, " is not in the grid" ); c.require( grid.front().value == x.d.el and grid.back().value == x.d.eh, "the grid goes from ", grid.front().value, " to ", grid.back().value );
  for ( std::size_t i = 1; i < grid.size(); ++i ) c.require( grid[i].value > grid[i-1].value and grid[i].value <= 1.25 * ( 1 + 1e-12 ) * grid[i-1].value, "the grid goes from ", grid[i-1].value, " to ", grid[i].value );
}
#include "endfrml.hpp"
#include "endfstruct.hpp"
#include "endfequiv.hpp"
int main( int argc, char** argv ) { return pbt::main( argc, argv ); }
