// What the data objects must return for the model they were made from.
#ifndef VERIF_OBJECTCHECK
#define VERIF_OBJECTCHECK
#include "rmbuild.hpp"
namespace objectcheck {
using namespace gen;
template< class A, class B > static void list( pbt::Case& c, A&& got, const std::vector< B >& want, const char* what ) {
  std::size_t i = 0; for ( auto&& x : got ) { c.require( i < want.size(), what, ": more than ", want.size(), " elements" ); c.require( x == want[i], what, ": element ", i, " differs" ); ++i; }
  c.require( i == want.size(), what, ": ", i, " elements instead of ", want.size() ); }
template< class A > static void values( pbt::Case& c, A&& got, const std::vector< double >& want, const char* what ) {
  std::size_t i = 0; for ( auto&& x : got ) { c.require( i < want.size(), what, ": more than ", want.size(), " elements" ); c.require( x.value == want[i], what, ": element ", i, " is ", x.value, " instead of ", want[i] ); ++i; }
  c.require( i == want.size(), what, ": ", i, " elements instead of ", want.size() ); }
static std::string idOf( const rm::ParticleChannel& x ) { return std::visit( [] ( auto& y ) { return y.channelID(); }, x ); }

static void isResonance( pbt::Case& c, const rm::Resonance& got, const Reso& r ) {
  c.require( got.energy().value == r.E, "the energy ", r.E, " comes back as ", got.energy().value ); c.require( got.eliminatedWidth().value == r.el, "the eliminated width ", r.el, " comes back as ", got.eliminatedWidth().value );
  values( c, got.widths(), r.w, "reduced widths" ); }
static void isTable( pbt::Case& c, const rm::ResonanceTable& t, const System& s, const Group& gr ) {
  std::vector< std::string > ids; std::vector< double > es; for ( auto& k : gr.ch ) ids.push_back( channelId( s, gr, k ) ); for ( auto& r : gr.res ) es.push_back( r.E );
  c.require( t.numberChannels() == ids.size(), t.numberChannels(), " channels instead of ", ids.size() ); c.require( t.numberResonances() == es.size(), t.numberResonances(), " resonances instead of ", es.size() );
  list( c, t.channels(), ids, "channels of the table" ); values( c, t.energies(), es, "energies of the table" );
  std::size_t i = 0; for ( const auto& r : t.resonances() ) isResonance( c, r, gr.res[i++] ); }
static void isChannel( pbt::Case& c, const rm::ParticleChannel& x, const System& s, const Group& gr, const Chan& k, double E ) {
  c.require( x.index() == channel( s, gr, k ).index(), "the type of channel ", channelId( s, gr, k ) );
  std::visit( [&] ( auto& y ) {
    c.require( y.channelID() == channelId( s, gr, k ), "channel ", y.channelID(), " instead of ", channelId( s, gr, k ) ); c.require( y.reactionID().symbol() == reactionId( s, k ), "reaction ", y.reactionID().symbol(), " instead of ", reactionId( s, k ) );
    c.require( y.Q().value == k.q and y.boundaryCondition() == k.B and y.isIncidentChannel() == ( k.pair == 0 ), "Q value, boundary condition or incident flag of ", y.channelID() );
    c.require( y.particlePair().pairID().symbol() == pairId( s.pairs[k.pair] ) and y.incidentParticlePair().pairID().symbol() == pairId( s.pairs[0] ), "particle pairs of ", y.channelID() );
    auto n = y.quantumNumbers(); c.require( n.orbitalAngularMomentum() == unsigned( k.l ) and n.spin() == k.s2 / 2. and n.totalAngularMomentum() == gr.J2 / 2. and n.parity() == gr.parity, "quantum numbers of ", y.channelID() );
    c.require( y.radii().penetrabilityRadius( eV( E ) ).value == k.rP and y.radii().shiftFactorRadius( eV( E ) ).value == k.rS and y.radii().phaseShiftRadius( eV( E ) ).value == k.rF, "radii of ", y.channelID() ); }, x ); }
template< class SG > static void isGroup( pbt::Case& c, const SG& sg, const System& s, const Group& gr, double E ) {
  std::size_t i = 0; for ( auto&& x : sg.channels() ) { c.require( i < gr.ch.size(), "too many channels" ); isChannel( c, x, s, gr, gr.ch[i++], E ); } c.require( i == gr.ch.size(), i, " channels instead of ", gr.ch.size() );
  std::vector< std::string > ids, in, re; for ( auto& k : gr.ch ) { ids.push_back( channelId( s, gr, k ) ); re.push_back( reactionId( s, k ) ); if ( k.pair == 0 ) in.push_back( ids.back() ); } re.push_back( captureId( s ) );
  list( c, sg.channelIDs(), ids, "channel identifiers" ); c.require( sg.incidentPair().pairID().symbol() == pairId( s.pairs[0] ), "the incident pair is ", sg.incidentPair().pairID().symbol() );
  std::vector< std::string > got; for ( auto&& x : sg.incidentChannels() ) got.push_back( idOf( x ) ); list( c, got, in, "incident channels" );
  got.clear(); for ( auto&& x : sg.reactionIDs() ) got.push_back( x.symbol() ); list( c, got, re, "reaction identifiers" );
  isTable( c, sg.resonanceTable(), s, gr ); }
}
#endif
