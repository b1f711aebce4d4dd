// The systems that fromENDF builds: their spin groups, channels, radii, resonances and T matrix.
#include "objectcheck.hpp"
#include "legacygen.hpp"
using namespace objectcheck;
typedef rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > ByShift;
typedef rm::CompoundSystem< rm::ReichMoore, rm::Constant > ByConstant;
template< class F > static bool resolvedSystem( rm::Reconstructor& r, F&& f ) {
  if ( auto* x = std::get_if< ByShift >( &r.compoundSystem() ) ) { f( *x, true ); return true; } if ( auto* x = std::get_if< ByConstant >( &r.compoundSystem() ) ) { f( *x, false ); return true; } return false; }
static double amplitude( double x ) { return double( ( x < 0 ? -1 : 1 ) * std::sqrt( std::fabs( R( x ) ) / 2 ) ); }

FACET( "C27", "R-matrix limited: groups, channels, resonances and T matrix", 120000, 2000000,
       "as for the cross sections of R-matrix limited ranges; one spin group per J and parity with all channels that have a width (or are incident), their quantum numbers, pairs, Q, radii and boundary conditions; every resonance with its reduced widths; T matrix; non-trivial: a resonance and several channels" ) {
  double E = g.logreal( 1e-3, 2e6 ); Rml x = rml( g, E ); describe( c, x, E ); System s = x.s; s.groups.clear();
  for ( std::size_t n = 0; n < x.s.groups.size(); ++n ) { Group e = effective( x.s.groups[n] ); // merged by J and parity; a resonance counts if the file has a number other than 0 for it
    c.nontrivial( e.res.size() > 0 and e.ch.size() > 1 ); std::vector< Reso > kept; for ( std::size_t i = 0; i < e.res.size(); ++i ) { bool any = false; for ( double w : x.gam[n][i] ) any = any or w != 0.; if ( any ) kept.push_back( e.res[i] ); } e.res = kept;
    Group* to = nullptr; for ( auto& y : s.groups ) if ( y.J2 == e.J2 and y.parity == e.parity ) to = &y; if ( not to ) { s.groups.push_back( e ); continue; }
    std::size_t a = to->ch.size(), b = e.ch.size(); to->ch.insert( to->ch.end(), e.ch.begin(), e.ch.end() ); for ( auto& r : to->res ) r.w.resize( a + b, 0. ); for ( auto r : e.res ) { r.w.insert( r.w.begin(), a, 0. ); to->res.push_back( r ); } }
  auto rec = reconstructor( rangeOf( g, x, 1e-5, 2e7 ), x.mn, x.s.pairs[0].b.id );
  bool any = resolvedSystem( rec, [&] ( auto& cs, bool shift ) {
    c.require( shift == ( x.shf == 0 ), "the boundary condition option" ); std::size_t groups = 0; std::set< std::string > seen;
    for ( const auto& sg : cs.spinGroups() ) { ++groups; const Group* gr = nullptr; std::visit( [&] ( auto& y ) { for ( auto& z : s.groups ) if ( z.J2 / 2. == y.quantumNumbers().totalAngularMomentum() and z.parity == y.quantumNumbers().parity() ) gr = &z; }, sg.channels()[0] ); c.require( gr, "an unexpected spin group with ", idOf( sg.channels()[0] ) );
      std::vector< std::size_t > at; for ( const auto& ch : sg.channels() ) { auto id = idOf( ch ); c.require( seen.insert( id ).second, "channel ", id, " twice" ); std::size_t i = 0; while ( i < gr->ch.size() and channelId( s, *gr, gr->ch[i] ) != id ) ++i; c.require( i < gr->ch.size(), "unexpected channel ", id ); isChannel( c, ch, s, *gr, gr->ch[i], E ); at.push_back( i ); }
      c.require( at.size() == gr->ch.size(), at.size(), " channels instead of ", gr->ch.size() ); const auto& t = sg.resonanceTable(); c.require( t.numberResonances() == gr->res.size(), t.numberResonances(), " resonances instead of ", gr->res.size(), " for J=", gr->J2, "/2" ); std::set< double > energies;
      for ( const auto& r : t.resonances() ) { c.require( energies.insert( r.energy().value ).second, "two resonances at ", r.energy().value ); const Reso* m = nullptr; for ( auto& y : gr->res ) if ( y.E == r.energy().value ) m = &y; c.require( m, "unexpected resonance at ", r.energy().value );
        c.close( r.eliminatedWidth().value, m->el, 1e-13, 0., "eliminated width" ); c.require( std::size_t( ranges::distance( r.widths() ) ) == at.size(), "number of widths" ); std::size_t i = 0; for ( auto&& w : r.widths() ) { c.close( w.value, m->w[at[i]], x.ifg ? 0. : 1e-9, 0., "reduced width of ", channelId( s, *gr, gr->ch[at[i]] ), " at ", m->E ); ++i; } } }
    c.require( groups == s.groups.size(), groups, " spin groups instead of ", s.groups.size() );
    if ( doubtful( s, E ) ) return; // the T matrix
    std::map< std::string, Z > want; std::map< std::string, R > err; try { for ( auto& gr : s.groups ) { auto m = collision( gr, waves( s, gr, E ), E, shift ); if ( not ( m.worst < 1e-6L ) ) return;
      for ( std::size_t i = 0; i < gr.ch.size(); ++i ) for ( std::size_t j = 0; j < gr.ch.size(); ++j ) { auto id = channelId( s, gr, gr.ch[i] ) + "->" + channelId( s, gr, gr.ch[j] ); want[id] = m.T[i][j]; err[id] = m.error[i][j]; } } } catch ( const std::exception& ) { return; }
    TMap got; cs.evaluateTMatrix( eV( E ), got ); c.require( got.size() == want.size(), got.size(), " elements of the T matrix instead of ", want.size() ); c.label( "T matrix" );
    for ( auto& w : want ) { auto it = got.find( w.first ); c.require( it != got.end(), "no element ", w.first ); R d = std::abs( Z( it->second.real(), it->second.imag() ) - w.second ), tol = 10 * err[w.first] + 1e-9L * std::abs( w.second ); c.require( d <= tol, "T(", w.first, ") = ", it->second, ", expected ", std::complex< double >( w.second ) ); } } );
  c.require( any, "not an R-matrix system" );
}
static void isRadius( pbt::Case& c, const rm::ChannelRadii& r, const Data& d, double apl, double E ) {
  c.close( r.penetrabilityRadius( eV( E ) ).value, channelRadius( d, apl, E ), 1e-9, 0., "radius for the penetrability" ); c.close( r.shiftFactorRadius( eV( E ) ).value, channelRadius( d, apl, E ), 1e-9, 0., "radius for the shift factor" );
  c.close( r.phaseShiftRadius( eV( E ) ).value, phaseRadius( d, apl, E ), 1e-9, 0., "radius for the phase shift" ); }
FACET( "C27", "Reich-Moore: groups, channels and resonances", 60000, 1000000,
       "every l < NLSC, channel spin and J has exactly one neutron channel, with its radii; every resonance appears once, with the reduced neutron width in the channel of its channel spin, its fission widths and its eliminated width; non-trivial: several resonances" ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 3, 5, true, true ); endfgen::describe( c, d, E ); c.note( "NLSC ", d.nlsc ); std::set< double > energies; std::size_t n = 0; for ( auto& v : d.l ) for ( auto& r : v.res ) { ++n; energies.insert( r.E ); } if ( energies.size() != n ) throw pbt::Skip{}; c.nontrivial( n > 1 ); if ( d.nro ) c.label( "tabulated radius" );
  auto rec = reconstructor( endfgen::reichMoore( d ), d.mn, target( d ) ); std::size_t found = 0, resonances = 0; std::set< std::pair< double, int > > jpi;
  bool any = resolvedSystem( rec, [&] ( auto& cs, bool shift ) { c.require( shift, "not the shift factor as boundary condition" );
    for ( const auto& sg : cs.spinGroups() ) { auto n0 = std::visit( [] ( auto& y ) { return y.quantumNumbers(); }, sg.channels()[0] ); c.require( jpi.insert( { n0.totalAngularMomentum(), int( n0.parity() ) } ).second, "two spin groups with J=", n0.totalAngularMomentum() );
      struct Ch { bool neutron; int l, s2; }; std::vector< Ch > ch; const auto& all = sg.channels();
      for ( const auto& y : all ) std::visit( [&] ( auto& z ) { auto q = z.quantumNumbers(); c.require( q.totalAngularMomentum() == n0.totalAngularMomentum() and q.parity() == n0.parity(), "J or parity of ", z.channelID() ); ch.push_back( { z.isIncidentChannel(), int( q.orbitalAngularMomentum() ), int( 2 * q.spin() ) } );
          const Lv* v = nullptr; for ( auto& y : d.l ) if ( y.l == ch.back().l ) v = &y; if ( not z.isIncidentChannel() ) return; ++found; c.require( z.Q().value == 0. and q.parity() == ( q.orbitalAngularMomentum() % 2 ? -1 : 1 ), "Q value or parity of ", z.channelID() ); isRadius( c, z.radii(), d, v ? v->apl : 0., E ); c.close( z.particlePair().residual().mass().value, d.awri * d.mn, 1e-14, 0., "target mass" ); c.require( z.particlePair().residual().spin() == d.I2 / 2., "target spin" ); }, y );
      for ( std::size_t i = 0; i < ch.size(); ++i ) for ( std::size_t j = 0; j < i; ++j ) c.require( not ( ch[i].neutron and ch[j].neutron and ch[i].l == ch[j].l and ch[i].s2 == ch[j].s2 ), "two neutron channels with the same numbers" );
      for ( const auto& r : sg.resonanceTable().resonances() ) { ++resonances; const Rs* m = nullptr; const Lv* v = nullptr; for ( auto& y : d.l ) for ( auto& z : y.res ) if ( z.E == r.energy().value ) { m = &z; v = &y; } c.require( m, "unexpected resonance at ", r.energy().value ); c.require( std::fabs( m->J ) == n0.totalAngularMomentum() and ( v->l % 2 ? -1 : 1 ) == n0.parity(), "the resonance at ", m->E, " is in the wrong group" );
        c.close( r.eliminatedWidth().value, amplitude( m->gg ), 1e-13, 0., "eliminated width at ", m->E ); R P = hardsphere::PS( v->l, endfgen::waveNumber( d, m->E ) * R( channelRadius( d, v->apl, std::fabs( m->E ) ) ) ).P; std::size_t i = 0, neutrons = 0; std::vector< double > fis, want; if ( m->gf != 0 ) want.push_back( amplitude( m->gf ) ); if ( m->gf2 != 0 ) want.push_back( amplitude( m->gf2 ) );
        int J2 = int( 2 * std::fabs( m->J ) ), up = d.I2 + 1, down = d.I2 - 1; auto can = [&] ( int s2 ) { return s2 >= 0 and J2 >= std::abs( 2 * v->l - s2 ) and J2 <= 2 * v->l + s2; }; int s2 = can( up ) and can( down ) ? ( m->J < 0 ? down : up ) : can( up ) ? up : down;
        for ( auto&& w : r.widths() ) { c.require( i < ch.size(), "too many widths" ); auto& k = ch[i++]; if ( w.value == 0. ) continue; if ( k.neutron ) { ++neutrons; c.require( k.l == v->l and k.s2 == s2, "the neutron width at ", m->E, " is in the channel l=", k.l, " s=", k.s2, "/2 instead of ", v->l, " ", s2, "/2" ); c.close( w.value, double( std::sqrt( m->gn / ( 2 * P ) ) ), 1e-9, 0., "reduced neutron width at ", m->E ); } else fis.push_back( w.value ); }
        c.require( neutrons == 1, neutrons, " neutron widths at ", m->E ); std::sort( fis.begin(), fis.end() ); std::sort( want.begin(), want.end() ); c.require( fis.size() == want.size(), fis.size(), " fission widths at ", m->E ); for ( std::size_t k = 0; k < fis.size(); ++k ) c.close( fis[k], want[k], 1e-13, 0., "fission width at ", m->E ); } } } );
  c.require( any, "not an R-matrix system" ); c.require( resonances == n, resonances, " resonances instead of ", n ); std::size_t channels = 0;
  for ( int l = 0; l < d.nlsc; ++l ) for ( int s2 = std::abs( d.I2 - 1 ); s2 <= d.I2 + 1; s2 += 2 ) channels += std::size_t( std::min( 2 * l, s2 ) + 1 ); c.require( found == channels, found, " neutron channels instead of ", channels );
}
FACET( "C27", "Breit-Wigner: groups and resonances", 150000, 2500000,
       "every l and J of the file has one group with the resonances of the file: widths, competition, P, Q and S at the absolute value of the energy, radii, QX; other groups are empty; non-trivial: several resonances" ) {
  double E = g.logreal( 1e-3, 1e6 ); bool multi = g.boolean(); Data d = endfgen::data( g, E, 4, 6, false, true ); endfgen::describe( c, d, E ); std::size_t n = 0; for ( auto& v : d.l ) n += v.res.size(); c.nontrivial( n > 1 );
  auto rec = reconstructor( endfgen::breitWigner( d, multi ), d.mn, target( d ) ); double up = ( d.awri + 1 ) / d.awri;
  auto check = [&] ( const auto& cs ) { std::set< std::pair< int, double > > seen; std::size_t count = 0;
    for ( const auto& sg : cs.spinGroups() ) { int l = int( sg.orbitalAngularMomentum() ); double J = sg.totalAngularMomentum(); c.require( seen.insert( { l, J } ).second, "two groups with l=", l, " J=", J ); isRadius( c, sg.incidentChannel().radii(), d, 0., E ); const Lv* v = nullptr; for ( auto& y : d.l ) if ( y.l == l ) v = &y;
      std::vector< const Rs* > mine; if ( v ) for ( auto& r : v->res ) if ( r.J == J ) mine.push_back( &r ); c.require( sg.resonanceTable().numberResonances() == mine.size(), sg.resonanceTable().numberResonances(), " resonances for l=", l, " J=", J, " instead of ", mine.size() ); if ( mine.empty() ) continue; c.require( sg.QX().value == v->qx, "QX" ); std::size_t i = 0;
      for ( const auto& r : sg.resonanceTable().resonances() ) { const Rs& m = *mine[i++]; ++count; c.require( r.energy().value == m.E and r.elastic().value == m.gn and r.capture().value == m.gg and r.fission().value == m.gf, "resonance ", i - 1, " of l=", l, " J=", J ); double gt = m.gn + m.gg + m.gf + m.gx; c.close( r.competition().value, v->lrx ? gt - m.gn - m.gg - m.gf : 0., 0., 1e-14 * gt, "competitive width at ", m.E );
        R k = endfgen::waveNumber( d, m.E ) * R( channelRadius( d, 0., std::fabs( m.E ) ) ); auto ps = hardsphere::PS( l, k ); c.close( r.penetrability(), double( ps.P ), 1e-9, 0., "penetrability at ", m.E ); c.close( r.shiftfactor(), double( ps.S ), 1e-9, 1e-9 * ( l + double( ps.P ) ), "shift factor at ", m.E );
        if ( v->lrx and m.gx > 1e-2 * gt ) { double Ex = std::fabs( m.E + v->qx * up ); double Q = double( hardsphere::PS( l, endfgen::waveNumber( d, Ex ) * R( channelRadius( d, 0., Ex ) ) ).P ); c.close( r.competition( 1. ).value, r.competition().value / Q, 1e-6, 0., "penetrability of the competition at ", m.E ); } } }
    c.require( count == n, count, " resonances instead of ", n ); };
  if ( multi ) { auto* x = std::get_if< legacygen::lr::CompoundSystem< rm::MultiLevelBreitWigner > >( &rec.compoundSystem() ); c.require( x, "not a multi-level system" ); check( *x ); } else { auto* x = std::get_if< legacygen::lr::CompoundSystem< rm::SingleLevelBreitWigner > >( &rec.compoundSystem() ); c.require( x, "not a single-level system" ); check( *x ); }
}
FACET( "C27", "unresolved: groups and average parameters", 200000, 3000000,
       "the three representations: every l and J of the file has one group with the energies, parameters and degrees of freedom of the file, and its radii; non-trivial: several groups" ) {
  Unres x = unresolved( g ); describe( c, x, x.d.el ); c.nontrivial( x.u.groups.size() > 1 ); auto rec = reconstructor( rangeOf( x ), x.d.mn, target( x.d ) ); auto* cs = std::get_if< legacygen::lu::CompoundSystem >( &rec.compoundSystem() ); c.require( cs, "not an unresolved system" ); std::size_t n = 0;
  for ( const auto& sg : cs->spinGroups() ) { const urref::UGroup* m = nullptr; for ( auto& y : x.u.groups ) if ( unsigned( y.l ) == sg.orbitalAngularMomentum() and y.J2 / 2. == sg.totalAngularMomentum() ) m = &y; c.require( m, "an unexpected group" ); ++n; isRadius( c, sg.incidentChannel().radii(), x.d, 0., x.d.el ); const auto& t = sg.resonanceTable();
    values( c, t.energies(), m->E, "energies" ); auto f = t.degreesOfFreedom(); c.require( f.elastic == unsigned( m->mu ), "degrees of freedom of the elastic width: ", f.elastic ); std::size_t j = 0;
    for ( const auto& r : t.resonances() ) { c.require( r.levelSpacing().value == m->D[j] and r.elastic().value == m->g0[j] and r.capture().value == m->gg[j] and r.fission().value == m->gf[j] and r.competition().value == m->gx[j], "the parameters at ", m->E[j], " for l=", m->l, " J=", m->J2, "/2" );
      if ( m->gf[j] != 0 ) c.require( f.fission == unsigned( m->nu ), "degrees of freedom of the fission width: ", f.fission ); if ( m->gx[j] != 0 ) c.require( f.competition == unsigned( m->la ), "degrees of freedom of the competitive width: ", f.competition ); ++j; } }
  c.require( n == x.u.groups.size(), n, " groups instead of ", x.u.groups.size() );
}
// ------------------------------------------------------------------------------------ finite
FACET( "C28", "finite cross sections", 360000, 4000000,
       "every kind of range at energies anywhere in [1e-5, 2e7], at and next to a resonance, its half-width points and the bounds; every cross section is a finite number; non-trivial: not a uniformly drawn energy" ) {
  double E = g.logreal( 1e-3, 1e6 ); Any a = any( g, c, E, true ); c.label( a.kind == "unresolved" ? "unresolved" : a.kind == "R-matrix limited" ? "R-matrix limited" : a.kind == "Reich-Moore" ? "Reich-Moore" : "Breit-Wigner" ); auto rec = reconstructor( a.range, a.mn, a.target ); auto grid = rec.grid(); double at = g.logreal( 1e-5, 2e7 );
  if ( g.chance( 80 ) ) { c.nontrivial(); switch ( g.below( 4 ) ) { case 0: at = E; break; case 1: if ( not a.energies.empty() ) at = std::fabs( g.pick( a.energies ) ); break; case 2: if ( not grid.empty() ) at = grid[ g.below( grid.size() ) ].value; break; default: at = g.boolean() ? a.range.EL_ : a.range.EH_; }
    int n = int( g.integer( -2, 2 ) ); for ( int i = 0; i < std::abs( n ); ++i ) at = std::nextafter( at, n > 0 ? 1e300 : 0. ); }
  at = std::min( std::max( at, a.range.EL_ ), a.range.EH_ ); c.note( "evaluated at ", at ); for ( auto& y : a.poles ) if ( std::fabs( at - y.first ) < 1e-9 * y.second ) throw pbt::Skip{}; // documented as undefined: a pole without eliminated width
  for ( auto& x : rec( eV( at ) ) ) c.require( std::isfinite( x.second.value ), x.first.symbol(), " is ", x.second.value, " at ", at );
}
