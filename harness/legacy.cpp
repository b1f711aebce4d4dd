// Harness for the legacy classes: single-level and multi-level Breit-Wigner, unresolved resonances.
#include "resonanceReconstruction.hpp"
#include "legacygen.hpp"
using namespace gen; using namespace urref; using namespace legacygen;
using rmref::R; using rmref::Z;
template< class F > static bool throws( F&& f ) { try { f(); } catch ( const std::exception& ) { return true; } return false; }

static void addPotential( const Bw& b, double E, Expected& out ) { int lmax = 0; for ( auto& g : b.groups ) lmax = std::max( lmax, g.l ); addPotential( b.pair, b.rF, lmax, E, out ); }
// expected cross sections without potential scattering
static void addGroup( const Bw& b, const LGroup& g, double E, bool multi, Expected& out ) {
  R k = waveNumber( b, E ), P = hardsphere::PS( g.l, k * b.rP ).P, S = hardsphere::PS( g.l, k * b.rS ).S, Q = P, dQ = 1e-13L;
  if ( b.qx != 0 ) { R Ex = R( E ) + R( b.qx ) / ratio( b.pair ); R size = E + 2 * std::fabs( R( b.qx ) ); if ( std::fabs( Ex ) < 1e-5L * size ) throw pbt::Skip{};
    if ( Ex > 0 ) { Q = hardsphere::PS( g.l, waveNumber( b, Ex ) * b.rP ).P; dQ += 1e-15L * ( 2 * g.l + 1 ) * size / Ex; } else Q = 0; }
  R phi = phase( g.l, k * b.rF ), dphi = 4e-15L * ( 1 + k * b.rF ), f = pi / ( k * k ) * R( g.J2 + 1 ) / ( 2 * ( b.pair.b.spin2 + 1 ) );
  Z X = 0; R eX = 0, slbw = 0, eS = 0, cap = 0, fis = 0, eC = 0, eF = 0, sn = std::sin( phi ), s2 = std::sin( 2 * phi ); bool fission = false;
  for ( auto& r : g.res ) {
    R gam = R( r.el ) / r.P, gn = gam * P, gt = gn + r.cap + r.fis + ( r.comp != 0 ? R( r.comp ) / r.Q * Q : 0 );
    R dE = E - ( R( r.E ) + ( R( r.S ) - S ) / 2 * gam );
    R den = dE * dE + gt * gt / 4;
    R eE = 4e-16L * ( std::fabs( R( E ) ) + std::fabs( R( r.E ) ) + std::fabs( gam ) * ( std::fabs( S ) + std::fabs( R( r.S ) ) ) ) + 1e-14L * std::fabs( gam ) * std::fabs( S + g.l );
    R rel = 2 * eE / std::sqrt( den ) + 1e-13L + ( r.comp != 0 ? dQ : 0 ) + 1e-14L * ( 2 * g.l + 1 );
    if ( den == 0 or rel > 1e-6L ) throw pbt::Skip{};
    Z x = gn / Z( -dE, -gt / 2 ); X += x; eX += std::abs( x ) * rel;
    slbw += gn * ( gn - 2 * gt * sn * sn + 2 * dE * s2 ) / den;
    eS += gn * ( gn + 2 * gt * sn * sn + 2 * std::fabs( dE * s2 ) ) / den * 2 * rel + gn * ( 4 * gt * ( std::fabs( sn ) + dphi ) * dphi + 4 * std::fabs( dE ) * dphi + 2 * eE * std::fabs( s2 ) ) / den;
    cap += gn * r.cap / den; eC += gn * r.cap / den * 2 * rel; fis += gn * r.fis / den; eF += gn * r.fis / den * 2 * rel; fission = fission or r.fis != 0;
  }
  auto el = elasticId( b.pair );
  if ( multi ) { Z d0( -2 * sn * sn, s2 ); out.sigma[el] += f * ( std::norm( X ) + 2 * std::real( std::conj( d0 ) * Z( 0, -1 ) * X ) );
    out.error[el] += f * ( eS + 2 * std::abs( X ) * eX + 2 * eX * eX + 1e-13L * eX + 4 * std::abs( X ) * dphi + 1e-15L * std::norm( X ) ); }
  else { out.sigma[el] += f * slbw; out.error[el] += f * eS; }
  out.sigma[ otherId( b.pair, "capture" ) ] += f * cap; out.error[ otherId( b.pair, "capture" ) ] += f * eC;
  if ( fission and fis != 0 ) { out.sigma[ otherId( b.pair, "fission" ) ] += f * fis; out.error[ otherId( b.pair, "fission" ) ] += f * eF; }
}
static void compareSigma( pbt::Case& c, const Sigma& got, const Expected& want, const char* what ) {
  for ( auto& w : want.sigma ) { auto it = got.find( rm::ReactionID( w.first ) ); c.require( it != got.end(), what, ": no cross section for ", w.first );
    c.close( it->second.value, double( w.second ), 1e-12, double( want.error.at( w.first ) ), what, ": ", w.first ); }
  c.require( got.size() == want.sigma.size(), what, ": ", got.size(), " reactions instead of ", want.sigma.size() ); }

template< class F > static void evaluateGroups( pbt::Src& g, pbt::Case& c, bool multi ) {
  double E = g.logreal( 1e-3, 1e6 ); Bw b = breitWigner( g, E, 4, 6, true ); describe( c, b, E );
  std::size_t most = 0; for ( auto& x : b.groups ) most = std::max( most, x.res.size() ); c.nontrivial( most > 1 ); if ( b.qx != 0 ) c.label( "competition" );
  Expected whole; addPotential( b, E, whole );
  for ( auto& x : b.groups ) { Expected one; addGroup( b, x, E, multi, one ); addGroup( b, x, E, multi, whole );
    auto sg = spinGroupOf< F >( b, x ); Sigma got; sg.evaluate( eV( E ), got ); compareSigma( c, got, one, "spin group" );
    c.require( int( sg.orbitalAngularMomentum() ) == x.l and sg.totalAngularMomentum() == x.J2 / 2. and sg.QX().value == b.qx and sg.resonanceTable().numberResonances() == x.res.size(), "the data of the spin group" ); }
  auto s = systemOf< F >( b ); Sigma got, other, again, twice; 
  if ( g.boolean() ) { double E2 = g.logreal( 1e-3, 1e6 ); s.evaluate( eV( E2 ), other ); }
  s.evaluate( eV( E ), got ); compareSigma( c, got, whole, "compound system" );
  auto copy = s; copy.evaluate( eV( E ), again ); for ( auto& x : got ) c.require( again[x.first].value == x.second.value, "another evaluation gives ", again[x.first].value, " for ", x.first.symbol() );
  twice = got; s.evaluate( eV( E ), twice ); for ( auto& x : got ) c.close( twice[x.first].value, 2 * x.second.value, 1e-12, 1e-12 * double( whole.error[ x.first.symbol() ] * 1e3L ) + 1e-12 * std::fabs( got.begin()->second.value ), "accumulation: ", x.first.symbol() );
}
FACET( "C15", "single-level Breit-Wigner cross sections", 400000, 8000000,
       "1-4 (l,J) groups, 0-6 resonances (bound, at, near and far), fission and competition; spin groups, systems, after other energies, copies, accumulation; non-trivial: several resonances in a group" ) {
  evaluateGroups< SL >( g, c, false ); }
FACET( "C16", "multi-level Breit-Wigner cross sections", 400000, 8000000,
       "as for single-level, elastic against |1 - U|^2 with U = exp(-2i phi)(1 + i sum Gn/(E'-E-iG/2)); non-trivial: several resonances in a group" ) {
  evaluateGroups< ML >( g, c, true ); }
FACET( "C16", "one resonance: multi-level equals single-level", 120000, 2400000, "groups with at most one resonance give the same cross sections in both formalisms; non-trivial: at least one resonance" ) {
  double E = g.logreal( 1e-3, 1e6 ); Bw b = breitWigner( g, E, 4, 1, true ); describe( c, b, E ); for ( auto& x : b.groups ) c.nontrivial( not x.res.empty() );
  Expected e1, e2; addPotential( b, E, e1 ); for ( auto& x : b.groups ) { addGroup( b, x, E, false, e1 ); addGroup( b, x, E, true, e2 ); }
  Sigma p, q; systemOf< SL >( b ).evaluate( eV( E ), p ); systemOf< ML >( b ).evaluate( eV( E ), q );
  c.require( p.size() == q.size(), "numbers of reactions" ); for ( auto& x : p ) c.close( q[x.first].value, x.second.value, 1e-12, 2 * double( e1.error[ x.first.symbol() ] + e2.error[ x.first.symbol() ] ), x.first.symbol() );
}
FACET( "C16", "elastic scattering is not negative", 120000, 2400000, "all J of an l present, resonances with P, S of the channel: the multi-level elastic cross section is never negative; non-trivial: several resonances in a group" ) {
  double E = g.logreal( 1e-3, 1e6 ); Bw b = breitWigner( g, E, 3, 6, false );
  // all J values for every l up to the largest, so that the potential scattering is complete
  int I2 = b.pair.b.spin2, lmax = 0; for ( auto& x : b.groups ) lmax = std::max( lmax, x.l );
  std::vector< LGroup > all; R weight = 0;
  for ( int l = 0; l <= lmax; ++l ) { R w = 0; std::set< int > Js; for ( int s2 = std::abs( I2 - 1 ); s2 <= I2 + 1; s2 += 2 ) for ( int J2 = std::abs( 2 * l - s2 ); J2 <= 2 * l + s2; J2 += 2 ) Js.insert( J2 );
    for ( int J2 : Js ) { LGroup n{ l, J2, {} }; for ( auto& x : b.groups ) if ( x.l == l ) n.res.insert( n.res.end(), x.res.begin(), x.res.begin() + long( g.below( x.res.size() + 1 ) ) ); all.push_back( n ); } (void)w; }
  (void)weight; b.groups = all; describe( c, b, E ); for ( auto& x : b.groups ) c.nontrivial( x.res.size() > 1 );
  Expected want; addPotential( b, E, want ); for ( auto& x : b.groups ) addGroup( b, x, E, true, want );
  Sigma got; systemOf< ML >( b ).evaluate( eV( E ), got );
  for ( auto& x : got ) c.require( x.second.value >= -double( want.error[ x.first.symbol() ] ), x.first.symbol(), " is negative: ", x.second.value );
}
FACET( "C15", "resonance data", 200000, 4000000, "everything given to a resonance comes back; widths scale with the penetrability; primed energy; non-trivial: every case" ) {
  double E = g.logreal( 1e-3, 1e6 ); Bw b = breitWigner( g, E, 1, 3, true ); describe( c, b, E );
  for ( auto& x : b.groups ) for ( auto& r : x.res ) { c.nontrivial(); auto n = resonance( r ); double p = g.logreal( 1e-8, 100. ), q = g.logreal( 1e-8, 100. ), s = -g.real( 0., 5. );
    c.require( n.energy().value == r.E and n.elastic().value == r.el and n.capture().value == r.cap and n.fission().value == r.fis and n.competition().value == r.comp, "the widths given do not come back" );
    c.require( n.penetrability() == r.P, "the penetrability is ", n.penetrability(), " instead of ", r.P ); c.require( n.shiftfactor() == r.S, "the shift factor is ", n.shiftfactor() );
    c.close( n.total().value, r.el + r.cap + r.fis + r.comp, 1e-14, 0., "total width" );
    c.close( n.elastic( p ).value, r.el * p / r.P, 1e-14, 0., "elastic width at another penetrability" ); c.close( n.competition( q ).value, r.comp * q / r.Q, 1e-14, 0., "competitive width at another penetrability" );
    c.close( n.total( p, q ).value, r.el * p / r.P + r.cap + r.fis + r.comp * q / r.Q, 1e-13, 0., "total width at another penetrability" );
    c.close( n.energyPrime( s ).value, r.E + ( r.S - s ) / 2 / r.P * r.el, 1e-13, 1e-13 * ( std::fabs( r.E ) + r.el / r.P * 5 ), "primed energy" );
    c.close( n.energyPrime( r.S ).value, r.E, 1e-14, 1e-14 * r.el / r.P * std::fabs( r.S ), "primed energy at the resonance" ); }
}
FACET( "C15", "grid", 160000, 3200000, "strictly increasing; exactly Er and Er +- half the total width for positive Er; the same in both formalisms; non-trivial: two positive resonances" ) {
  double E = g.logreal( 1e-3, 1e6 ); Bw b = breitWigner( g, E, 4, 6, true ); for ( auto& x : b.groups ) if ( x.res.size() > 1 and g.chance( 20 ) ) x.res[1] = x.res[0]; describe( c, b, E );
  struct Point { double x, tol; }; std::vector< Point > want; int positive = 0;
  for ( auto& x : b.groups ) for ( auto& r : x.res ) if ( r.E > 0 ) { ++positive; double h = ( r.el + r.cap + r.fis + r.comp ) / 2, t = 1e-14 * ( r.E + h ); want.push_back( { r.E, 0. } ); want.push_back( { r.E - h, t } ); want.push_back( { r.E + h, t } ); }
  c.nontrivial( positive > 1 );
  for ( auto& a : { systemOf< SL >( b ).grid(), systemOf< ML >( b ).grid() } ) {
  for ( std::size_t i = 1; i < a.size(); ++i ) c.require( a[i].value > a[i-1].value, "the grid is not strictly increasing at ", a[i].value );
  for ( auto& w : want ) { bool f = false; for ( auto& x : a ) f = f or std::fabs( x.value - w.x ) <= w.tol; c.require( f, "the grid has no point at ", w.x ); }
  for ( auto& x : a ) { bool f = false; for ( auto& w : want ) f = f or std::fabs( x.value - w.x ) <= w.tol; c.require( f, "the grid has an unexpected point ", x.value ); } }
}
FACET( "C15", "validation", 80000, 1200000, "no groups, or the same (l,J) twice at any position, is refused; otherwise accepted; non-trivial: every case" ) {
  double E = 100.; Bw b = breitWigner( g, E, 5, 1, false ); c.nontrivial(); describe( c, b, E );
  c.require( not throws( [&] { systemOf< SL >( b ); systemOf< ML >( b ); } ), "a valid system is refused" );
  LGroup again = b.groups[ g.below( b.groups.size() ) ]; again.res.clear(); b.groups.insert( b.groups.begin() + long( g.below( b.groups.size() + 1 ) ), again );
  c.require( throws( [&] { systemOf< SL >( b ); } ) and throws( [&] { systemOf< ML >( b ); } ), "a second spin group with the same l and J is accepted" );
  b.groups.clear(); c.require( throws( [&] { systemOf< SL >( b ); } ) and throws( [&] { systemOf< ML >( b ); } ), "a system without spin groups is accepted" );
}

// ------------------------------------------------------------------------------------ unresolved resonances
static double width( pbt::Src& g ) { return g.logreal( 1e-6, 1e3 ); }
FACET( "C17", "fluctuation integrals", 240000, 4000000,
       "widths over nine decades, fission and competition present or not, 1-4 degrees of freedom each; sum rule; against an independent quadrature and, roughly, the true integrals; non-trivial: fission or competition" ) {
  double gn = width( g ), gg = g.chance( 5 ) ? 0. : width( g ), gf = g.boolean() ? width( g ) : 0., gx = g.boolean() ? width( g ) : 0.;
  int mu = int( g.integer( 1, 4 ) ), nu = int( gf != 0 ? g.integer( 1, 4 ) : g.below( 5 ) ), la = int( gx != 0 ? g.integer( 1, 4 ) : g.below( 5 ) ), cap = int( g.below( 5 ) );
  c.note( "widths ", gn, " ", gg, " ", gf, " ", gx, " degrees ", mu, " ", cap, " ", nu, " ", la ); c.nontrivial( gf != 0 or gx != 0 );
  auto r = lu::calculateFluctuationIntegrals( lu::Widths( eV( gn ), eV( gg ), eV( gf ), eV( gx ) ), lu::Degrees( mu, cap, nu, la ) );
  auto w = fluctuation( gn, gg, gf, gx, mu, nu, la );
  c.close( r.elastic.value, double( w.el ), 1e-12, 0., "elastic" ); c.close( r.capture.value, double( w.cap ), 1e-12, 0., "capture" );
  c.close( r.fission.value, double( w.fis ), 1e-12, 0., "fission" ); c.close( r.competition.value, double( w.comp ), 1e-12, 0., "competition" );
  c.close( gn * r.elastic.value + gg * r.capture.value + gf * r.fission.value + gx * r.competition.value, 1., 2e-3, 0., "the partial widths do not add up to the total" );
}
FACET( "C17", "unresolved cross sections", 240000, 4000000,
       "1-4 (l,J) groups with 2-5 energies each, interpolated parameters, fission and competition, potential scattering; non-trivial: several groups" ) {
  Ur u = unresolved( g, 4 ); double lo = u.groups[0].E.front(), hi = u.groups[0].E.back(), E = g.chance( 20 ) ? g.pick( u.groups[0].E ) : lo + ( hi - lo ) * g.real( 0., 1. );
  describe( c, u, E ); c.nontrivial( u.groups.size() > 1 );
  Bw b; b.pair = u.pair; b.rF = u.rF; for ( auto& x : u.groups ) b.groups.push_back( { x.l, x.J2, {} } );
  Expected whole; addPotential( b, E, whole );
  for ( auto& x : u.groups ) { Expected one; addGroup( u, x, E, one ); addGroup( u, x, E, whole ); auto sg = groupOf( u, x ); Sigma got; sg.evaluate( eV( E ), got ); compareSigma( c, got, one, "spin group" );
    auto p = sg.resonanceTable()( eV( E ) ); c.close( p.levelSpacing().value, at( x, x.D, E ), 1e-12, slack( x, x.D, E ), "level spacing" ); c.close( p.elastic().value, at( x, x.g0, E ), 1e-12, slack( x, x.g0, E ), "reduced elastic width" );
    c.close( p.capture().value, at( x, x.gg, E ), 1e-12, slack( x, x.gg, E ), "capture width" ); c.close( p.fission().value, at( x, x.gf, E ), 1e-12, slack( x, x.gf, E ), "fission width" ); c.close( p.competition().value, at( x, x.gx, E ), 1e-12, slack( x, x.gx, E ), "competitive width" ); }
  auto s = systemOf( u ); Sigma other, got, again; if ( g.boolean() ) s.evaluate( eV( hi ), other ); s.evaluate( eV( E ), got ); compareSigma( c, got, whole, "compound system" );
  auto copy = s; copy.evaluate( eV( E ), again ); for ( auto& x : got ) c.require( again[x.first].value == x.second.value, "another evaluation differs for ", x.first.symbol() );
}
FACET( "C17", "grid", 240000, 4000000,
       "table energies over up to 12 decades, close together or far apart: all of them are in the grid, strictly increasing, no ratio above 1.25, everything added is a standard point; non-trivial: a gap of more than 1.25" ) {
  static const double points[] = { 1., 1.25, 1.5, 1.7, 2., 2.5, 3., 3.5, 4., 5., 6., 7.2, 8.5 };
  Ur u = unresolved( g, 3 ); std::set< double > all; bool gap = false;
  for ( auto& x : u.groups ) { x.E.clear(); double e = g.chance( 30 ) ? g.pick( std::vector< double >{ 1., 10., 1e3, 8.5e3, 4e2, 1e5 } ) : g.logreal( 1e-2, 1e5 ); int n = int( g.integer( 2, 5 ) );
    for ( int i = 0; i < n; ++i ) { x.E.push_back( e ); double f = 1 + g.logreal( 1e-4, 1e4 ); if ( g.chance( 25 ) ) f = g.pick( std::vector< double >{ 1.25, 1.2, 10., 1.1764705882352942, 100., 2. } ); e *= f; }
    for ( double v : x.E ) all.insert( v ); x.D.assign( x.E.size(), 1. ); x.g0 = x.gg = x.gf = x.gx = x.D; x.mu = x.nu = x.la = 1; }
  double last = 0; for ( double v : all ) { if ( last > 0 and v / last > 1.25 ) gap = true; last = v; }
  describe( c, u, 0. ); c.nontrivial( gap );
  auto grid = systemOf( u ).grid(); std::set< double > have; for ( auto& e : grid ) have.insert( e.value );
  for ( double v : all ) c.require( have.count( v ), "the energy ", v, " of a table is not in the grid" );
  for ( std::size_t i = 1; i < grid.size(); ++i ) { c.require( grid[i].value > grid[i-1].value, "the grid is not strictly increasing at ", grid[i].value );
    c.require( grid[i].value / grid[i-1].value <= 1.25 * ( 1 + 1e-12 ), "gap between ", grid[i-1].value, " and ", grid[i].value ); }
  c.require( grid.front().value == *all.begin() and grid.back().value == *all.rbegin(), "the grid ends at ", grid.front().value, " and ", grid.back().value );
  for ( auto& e : grid ) if ( not all.count( e.value ) ) { double m = std::pow( 10., std::floor( std::log10( e.value ) + 1e-12 ) ); bool standard = false; for ( double p : points ) standard = standard or std::fabs( e.value / m - p ) < 1e-9;
    c.require( standard, "the added energy ", e.value, " is not a standard point" ); auto next = all.lower_bound( e.value ); auto prev = std::prev( next ); c.require( *next / *prev > 1.25, "the energy ", e.value, " was added inside of a small gap" ); }
}
FACET( "C17", "validation", 80000, 1200000, "fewer than two energies, degrees of freedom above 4 (or none for the elastic channel), duplicate or no groups are refused; otherwise accepted; non-trivial: every case" ) {
  Ur u = unresolved( g, 4 ); describe( c, u, 0. ); c.nontrivial(); c.require( not throws( [&] { systemOf( u ); } ), "a valid system is refused" );
  UGroup& x = u.groups[ g.below( u.groups.size() ) ];
  switch ( g.below( 4 ) ) {
    case 0: { int which = int( g.below( 3 ) ), bad = which == 0 and g.boolean() ? 0 : int( g.integer( 5, 100 ) ); ( which == 0 ? x.mu : which == 1 ? x.nu : x.la ) = bad; c.require( throws( [&] { tableOf( x ); } ), bad, " degrees of freedom are accepted" ); break; }
    case 1: { UGroup y = x; y.E.resize( 1 ); c.require( throws( [&] { tableOf( y ); } ), "a table with one energy is accepted" ); break; }
    case 2: { UGroup y = x; u.groups.insert( u.groups.begin() + long( g.below( u.groups.size() + 1 ) ), y ); c.require( throws( [&] { systemOf( u ); } ), "a second spin group with the same l and J is accepted" ); break; }
    default: { u.groups.clear(); c.require( throws( [&] { systemOf( u ); } ), "a system without spin groups is accepted" ); } }
}
int main( int argc, char** argv ) { return pbt::main( argc, argv ); }
