// Harness for the data objects: what is put in comes out, from copies, moved and assigned objects too.
#include "resonanceReconstruction.hpp"
#include "legacygen.hpp"
#include "objectcheck.hpp"
using namespace gen; using namespace objectcheck;

FACET( "C26", "resonances, tables and channel data", 600000, 6000000,
       "resonances, tables of 0-50 resonances and 0-14 channels, channel data with or without the eliminated flag; after copy, move and assignment over another object; non-trivial: several resonances" ) {
  Options o; o.uncharged = true; System s = system( g, o, 2, false ); Group gr = s.groups[0], other = s.groups.back(); describe( c, s, o.E ); c.nontrivial( gr.res.size() > 1 );
  auto t = table( s, gr ); isTable( c, t, s, gr ); auto copy = t; isTable( c, copy, s, gr ); auto u = table( s, other ); u = t; isTable( c, u, s, gr ); auto moved = std::move( copy ); isTable( c, moved, s, gr );
  copy = table( s, other ); isTable( c, copy, s, other ); isTable( c, moved, s, gr ); isTable( c, t, s, gr );
  const Chan& k = gr.ch[ g.below( gr.ch.size() ) ]; std::vector< double > e, w; for ( auto& r : gr.res ) { e.push_back( r.E ); w.push_back( r.w[0] ); } bool el = g.boolean(), plain = not el and g.boolean();
  std::vector< Energy > ee; std::vector< ReducedWidth > ww; for ( double x : e ) ee.push_back( eV( x ) ); for ( double x : w ) ww.push_back( rootEV( x ) );
  auto data = plain ? rm::ParticleChannelData( channel( s, gr, k ), std::move( ee ), std::move( ww ) ) : rm::ParticleChannelData( channel( s, gr, k ), std::move( ee ), std::move( ww ), el ); auto second = data;
  for ( auto* d : { &data, &second } ) {
    isChannel( c, d->channel(), s, gr, k, o.E ); values( c, d->energies(), e, "energies of the channel data" ); values( c, d->widths(), w, "widths of the channel data" ); c.require( d->isEliminatedChannel() == el, "the eliminated flag" );
    c.require( d->channelID() == channelId( s, gr, k ) and d->reactionID().symbol() == reactionId( s, k ) and d->Q().value == k.q and d->boundaryCondition() == k.B and d->isIncidentChannel() == ( k.pair == 0 ), "identifier, Q, boundary condition or incident flag of the channel data" );
    c.require( d->particlePair().pairID().symbol() == pairId( s.pairs[k.pair] ) and d->incidentParticlePair().pairID().symbol() == pairId( s.pairs[0] ), "particle pairs of the channel data" );
    auto n = d->quantumNumbers(); c.require( n.orbitalAngularMomentum() == unsigned( k.l ) and n.spin() == k.s2 / 2. and n.totalAngularMomentum() == gr.J2 / 2. and n.parity() == gr.parity, "quantum numbers of the channel data" );
    auto r = d->radii(); c.require( r.penetrabilityRadius( eV( o.E ) ).value == k.rP and r.shiftFactorRadius( eV( o.E ) ).value == k.rS and r.phaseShiftRadius( eV( o.E ) ).value == k.rF, "radii of the channel data" ); }
}
FACET( "C26", "spin groups and compound systems", 120000, 1500000,
       "1-3 spin groups, both boundary conditions, also after evaluations, in copies that outlive the original, and after assignment; non-trivial: several groups or resonances" ) {
  Options o; o.uncharged = g.chance( 80 ); System s = system( g, o, 3 ); describe( c, s, o.E ); std::size_t n = 0; for ( auto& gr : s.groups ) n += gr.res.size(); c.nontrivial( s.groups.size() > 1 or n > 1 );
  auto run = [&] ( auto tag ) { typedef decltype( tag ) B;
    auto isSystem = [&] ( const auto& cs ) { std::size_t i = 0; for ( auto&& sg : cs.spinGroups() ) { c.require( i < s.groups.size(), "too many spin groups" ); isGroup( c, sg, s, s.groups[i++], o.E ); } c.require( i == s.groups.size(), i, " spin groups instead of ", s.groups.size() ); };
    auto first = std::make_unique< rm::CompoundSystem< rm::ReichMoore, B > >( compound< B >( s ) ); isSystem( *first );
    Sigma before, after; TMap T; bool fine = true; try { first->evaluate( eV( o.E ), before ); if ( g.boolean() ) first->evaluateTMatrix( eV( o.E ), T ); first->grid(); } catch ( const std::exception& ) { fine = false; } isSystem( *first );
    auto copy = *first; auto one = gen::group< B >( s, s.groups[0] ); { Options o2 = o; o2.maxResonances = 2; System tmp = s; tmp.groups = { spinGroup( g, s, 1 + s.groups[0].J2, 1, o2 ) }; auto assigned = compound< B >( tmp ); assigned = *first; isSystem( assigned ); }
    first.reset(); isSystem( copy ); isGroup( c, one, s, s.groups[0], o.E ); auto moved = std::move( copy ); isSystem( moved );
    if ( fine ) { moved.evaluate( eV( o.E ), after ); c.require( before.size() == after.size(), "the copy has other reactions" ); for ( auto& x : before ) { double y = after[x.first].value; c.require( y == x.second.value or ( y != y and x.second.value != x.second.value ), "the copy gives another value for ", x.first.symbol() ); } } };
  if ( g.boolean() ) run( rm::ShiftFactor{} ); else run( rm::Constant{} );
}
FACET( "C26", "system from channel data", 120000, 1500000,
       "1-3 spin groups given channel by channel: every group has its channels in the given order and a table, ascending in energy, with exactly the widths given and 0 for the others; non-trivial: several groups or resonances" ) {
  Options o; o.uncharged = true; System s = system( g, o, 3, false ); describe( c, s, o.E ); std::vector< rm::ParticleChannelData > data; std::size_t n = 0;
  for ( auto& gr : s.groups ) { std::sort( gr.res.begin(), gr.res.end(), [] ( auto& a, auto& b ) { return a.E < b.E; } ); gr.res.erase( std::unique( gr.res.begin(), gr.res.end(), [] ( auto& a, auto& b ) { return a.E == b.E; } ), gr.res.end() ); n += gr.res.size();
    for ( auto& r : gr.res ) { bool any = false; for ( double w : r.w ) any = any or w != 0; if ( not any ) r.w[0] = 1.; }
    bool drop = g.boolean(), el = false; auto give = [&] ( const Chan& k, auto get, bool eliminated ) { std::vector< Energy > e; std::vector< ReducedWidth > w; for ( auto& r : gr.res ) { double x = get( r ); if ( x == 0. and drop ) continue; e.push_back( eV( r.E ) ); w.push_back( rootEV( x ) ); }
      if ( g.boolean() ) { std::reverse( e.begin(), e.end() ); std::reverse( w.begin(), w.end() ); } data.emplace_back( channel( s, gr, k ), std::move( e ), std::move( w ), eliminated ); };
    for ( auto& r : gr.res ) el = el or r.el != 0.; std::size_t at = el or g.boolean() ? g.below( gr.ch.size() + 1 ) : 99;
    Chan x; x.type = photon; x.pair = 3; x.l = 0; x.s2 = 40; x.q = 0; x.rP = x.rS = x.rF = 0.; x.B = 0; x.other = "eliminated";
    for ( std::size_t i = 0; i <= gr.ch.size(); ++i ) { if ( i == at ) give( x, [] ( auto& r ) { return r.el; }, true ); if ( i < gr.ch.size() ) give( gr.ch[i], [&] ( auto& r ) { return r.w[i]; }, false ); } }
  c.nontrivial( s.groups.size() > 1 or n > 1 );
  rm::CompoundSystem< rm::ReichMoore, rm::ShiftFactor > cs( std::move( data ) ); std::set< std::size_t > found; std::size_t count = 0;
  for ( auto&& sg : cs.spinGroups() ) { ++count; bool any = false; for ( std::size_t i = 0; i < s.groups.size(); ++i ) if ( idOf( sg.channels()[0] ) == channelId( s, s.groups[i], s.groups[i].ch[0] ) and found.insert( i ).second ) { isGroup( c, sg, s, s.groups[i], o.E ); any = true; break; } c.require( any, "a spin group that was not given: ", idOf( sg.channels()[0] ) ); }
  c.require( count == s.groups.size(), count, " spin groups instead of ", s.groups.size() );
}
using namespace legacygen;
template< class SG > static void isLegacy( pbt::Case& c, const SG& sg, const Bw& b, int l, int J2, double E ) {
  c.require( sg.orbitalAngularMomentum() == unsigned( l ) and sg.totalAngularMomentum() == J2 / 2., "l or J of the spin group" ); auto& ch = sg.incidentChannel();
  c.require( ch.radii().penetrabilityRadius( eV( E ) ).value == b.rP and ch.radii().shiftFactorRadius( eV( E ) ).value == b.rS and ch.radii().phaseShiftRadius( eV( E ) ).value == b.rF, "the radii" );
  c.require( ch.particlePair().pairID().symbol() == pairId( b.pair ) and ch.quantumNumbers().orbitalAngularMomentum() == unsigned( l ) and ch.quantumNumbers().totalAngularMomentum() == J2 / 2., "the incident channel" ); }
FACET( "C26", "Breit-Wigner and unresolved groups and systems", 150000, 2500000,
       "1-4 (l,J) groups of both Breit-Wigner formalisms and of unresolved resonances, before and after evaluations, copies, moved and assigned objects; non-trivial: several groups or resonances" ) {
  double E = g.logreal( 1e-2, 1e5 ); bool evaluate = g.boolean();
  if ( g.chance( 60 ) ) { Bw b = breitWigner( g, E, 4, 6, true ), other = breitWigner( g, E, 2, 2, true ); legacygen::describe( c, b, E ); std::size_t n = 0; for ( auto& x : b.groups ) n += x.res.size(); c.nontrivial( b.groups.size() > 1 or n > 1 );
    auto run = [&] ( auto tag ) { typedef decltype( tag ) F;
      auto check = [&] ( const lr::CompoundSystem< F >& s, const Bw& b ) { std::size_t i = 0; for ( const auto& sg : s.spinGroups() ) { c.require( i < b.groups.size(), "too many groups" ); auto& x = b.groups[i++]; isLegacy( c, sg, b, x.l, x.J2, E ); c.require( sg.QX().value == b.qx, "the competitive Q value" );
          std::vector< double > e; for ( auto& r : x.res ) e.push_back( r.E ); c.require( sg.resonanceTable().numberResonances() == e.size(), "number of resonances" ); values( c, sg.resonanceTable().energies(), e, "resonance energies" ); std::size_t j = 0;
          for ( const auto& y : sg.resonanceTable().resonances() ) { auto& r = x.res[j++]; c.require( y.energy().value == r.E and y.elastic().value == r.el and y.capture().value == r.cap and y.fission().value == r.fis and y.competition().value == r.comp and y.penetrability() == r.P and y.shiftfactor() == r.S, "resonance ", j - 1, " is not what was given" ); } }
        c.require( i == b.groups.size(), i, " groups instead of ", b.groups.size() ); };
      auto first = std::make_unique< lr::CompoundSystem< F > >( legacygen::systemOf< F >( b ) ); check( *first, b ); Sigma a, z; if ( evaluate ) first->evaluate( eV( E ), a ); check( *first, b ); auto copy = *first; auto assigned = legacygen::systemOf< F >( other ); check( assigned, other ); assigned = *first;
      first.reset(); check( copy, b ); check( assigned, b ); auto moved = std::move( copy ); check( moved, b ); if ( evaluate ) { moved.evaluate( eV( E ), z ); for ( auto& x : a ) c.require( z[x.first].value == x.second.value, "the copy gives another value" ); } };
    if ( g.boolean() ) run( SL{} ); else run( ML{} ); return; }
  Ur u = legacygen::unresolved( g, 4 ), other = legacygen::unresolved( g, 2 ); legacygen::describe( c, u, E ); c.nontrivial( u.groups.size() > 1 ); E = u.groups[0].E[0];
  auto check = [&] ( const lu::CompoundSystem& s, const Ur& u ) { std::size_t i = 0; Bw b; b.pair = u.pair; b.rP = b.rS = u.rP; b.rF = u.rF; for ( const auto& sg : s.spinGroups() ) { c.require( i < u.groups.size(), "too many groups" ); auto& x = u.groups[i++]; isLegacy( c, sg, b, x.l, x.J2, E ); auto& t = sg.resonanceTable();
      c.require( t.numberResonances() == x.E.size(), "number of energies" ); values( c, t.energies(), x.E, "energies" ); auto d = t.degreesOfFreedom(); c.require( d.elastic == unsigned( x.mu ) and d.fission == unsigned( x.nu ) and d.competition == unsigned( x.la ), "degrees of freedom" ); std::size_t j = 0;
      for ( const auto& r : t.resonances() ) { c.require( r.energy().value == x.E[j] and r.levelSpacing().value == x.D[j] and r.elastic().value == x.g0[j] and r.capture().value == x.gg[j] and r.fission().value == x.gf[j] and r.competition().value == x.gx[j], "the parameters at energy ", x.E[j] ); ++j; } }
    c.require( i == u.groups.size(), i, " groups instead of ", u.groups.size() ); };
  auto first = std::make_unique< lu::CompoundSystem >( legacygen::systemOf( u ) ); check( *first, u ); Sigma a, z; if ( evaluate ) first->evaluate( eV( E ), a ); check( *first, u ); auto copy = *first; auto assigned = legacygen::systemOf( other ); check( assigned, other ); assigned = *first;
  first.reset(); check( copy, u ); check( assigned, u ); auto moved = std::move( copy ); check( moved, u ); if ( evaluate ) { moved.evaluate( eV( E ), z ); for ( auto& x : a ) c.require( z[x.first].value == x.second.value, "the copy gives another value" ); }
}
int main( int argc, char** argv ) { return pbt::main( argc, argv ); }
