// Harness for concurrent use: free functions, and objects that threads do not share, evaluated at the same time.
#include "resonanceReconstruction.hpp"
#include "legacygen.hpp"
#include "endfgen.hpp"
#include <atomic>
#include <thread>
using namespace gen;
static const double echarge = 1.6021766208e-19;
typedef std::vector< double > Out;
struct Job { std::string what; std::function< Out() > run; };
struct Maker { std::string what; std::function< Job() > make; }; // make gives every thread objects of its own

static double hash( const std::string& s ) { return double( std::hash< std::string >()( s ) >> 11 ); }
static void add( Out& o, const Sigma& s ) { for ( auto& x : s ) { o.push_back( hash( x.first.symbol() ) ); o.push_back( x.second.value ); } }
static bool same( const Out& a, const Out& b ) { // to the last bit, or both not a number
  if ( a.size() != b.size() ) return false; for ( std::size_t i = 0; i < a.size(); ++i ) if ( not ( a[i] == b[i] or ( a[i] != a[i] and b[i] != b[i] ) ) ) return false; return true; }
static Out guarded( const Job& j ) { try { return j.run(); } catch ( const std::exception& ) { return { -12345. }; } }

static Maker functions( pbt::Src& g ) {
  switch ( g.below( 5 ) ) {
    case 0: { int l = int( g.below( 5 ) ); double rho = g.logreal( 1e-3, 1e2 ); return { pbt::cat( "hard sphere l=", l, " rho=", rho ), [=] { return Job{ "", [=] { auto v = rr::penetrationShift( l, rho ); unsigned u = unsigned( l );
      return Out{ v[0], v[1], rr::phaseShift( l, rho ), rm::calculatePenetrability< rm::Neutron >( u, rho, 0. ), rm::calculateShiftFactor< rm::Neutron >( u, rho, 0. ), rm::calculatePhaseShift< rm::Neutron >( u, rho, 0. ) }; } }; } }; }
    case 1: { unsigned l = unsigned( g.below( 8 ) ); double rho = g.logreal( 0.05, 40. ), eta = g.logreal( 1e-2, 30. ); return { pbt::cat( "Coulomb l=", l, " eta=", eta, " rho=", rho ), [=] { return Job{ "", [=] {
      return Out{ rm::calculatePenetrability< rm::ChargedParticle >( l, rho, eta ), rm::calculateShiftFactor< rm::ChargedParticle >( l, rho, eta ), rm::calculatePhaseShift< rm::ChargedParticle >( l, rho, eta ), rm::calculateCoulombPhaseShift< rm::ChargedParticle >( int( l ), eta ) }; } }; } }; }
    case 2: { double a = double( g.below( 20 ) ) / 2, b = double( g.below( 20 ) ) / 2; unsigned l = unsigned( g.below( 8 ) ); return { pbt::cat( "spins ", a, " ", b, " l=", l ), [=] { return Job{ "", [=] {
      Out o; for ( auto x : rm::possibleChannelSpinValues( a, b ) ) o.push_back( x ); o.push_back( -1 ); for ( auto x : rm::possibleChannelTotalAngularMomentumValues( l, a ) ) o.push_back( x ); return o; } }; } }; }
    case 3: { unsigned l = unsigned( g.below( 9 ) ); double s = double( g.below( 20 ) ) / 2, J = double( g.below( 20 ) ) / 2; int p = g.boolean() ? 1 : -1; return { pbt::cat( "numbers ", l, " ", s, " ", J, " ", p ), [=] { return Job{ "", [=] {
      return Out{ hash( rm::ChannelQuantumNumbers( l, s, J, short( p ) ).toString() ) }; } }; } }; }
    default: { double w[4]; for ( double& x : w ) x = g.logreal( 1e-4, 10. ); unsigned n[4]; for ( unsigned& x : n ) x = unsigned( g.integer( 1, 4 ) ); double a = w[0], b = w[1], c = w[2], d = w[3]; unsigned p = n[0], q = n[1], r = n[2], s = n[3];
      return { pbt::cat( "fluctuation integrals ", a, " ", b, " ", c, " ", d ), [=] { return Job{ "", [=] { auto f = legacygen::lu::calculateFluctuationIntegrals( legacygen::lu::Widths( eV( a ), eV( b ), eV( c ), eV( d ) ), legacygen::lu::Degrees( p, q, r, s ) );
      return Out{ f.elastic.value, f.capture.value, f.fission.value, f.competition.value }; } }; } }; }
  }
}
// a system, evaluated at several energies
template< class S > static Job evaluations( S system, std::vector< double > es ) {
  auto p = std::make_shared< S >( std::move( system ) );
  return { "", [=] { Out o; for ( double E : es ) { Sigma s; p->evaluate( eV( E ), s ); add( o, s ); } for ( auto& e : p->grid() ) o.push_back( e.value ); return o; } }; }
static std::vector< double > energies( pbt::Src& g, double E ) { std::vector< double > v = { E }; int n = int( g.below( 3 ) ); for ( int i = 0; i < n; ++i ) v.push_back( E * g.real( 0.5, 2. ) ); return v; }
static rm::Reconstructor reconstructor( const endf::ResonanceRange& r, double mn, const std::string& target ) {
  return rm::fromENDF( r, mn * dimwits::daltons, echarge * dimwits::coulombs, rm::ParticleID( "n" ), rm::ParticleID( target ) ); }
static Maker objects( pbt::Src& g ) {
  switch ( g.below( 6 ) ) {
    case 0: { Options o; System s = system( g, o, 3 ); auto es = energies( g, o.E ); bool shift = g.boolean(); return { "Reich-Moore system", [=] { return shift ? evaluations( compound< rm::ShiftFactor >( s ), es ) : evaluations( compound< rm::Constant >( s ), es ); } }; }
    case 1: { double E = g.logreal( 1e-3, 1e6 ); auto b = legacygen::breitWigner( g, E, 4, 6, true ); auto es = energies( g, E ); bool multi = g.boolean(); return { multi ? "multi-level system" : "single-level system", [=] {
      return multi ? evaluations( legacygen::systemOf< legacygen::ML >( b ), es ) : evaluations( legacygen::systemOf< legacygen::SL >( b ), es ); } }; }
    case 2: { auto u = legacygen::unresolved( g, 4 ); std::vector< double > es = { u.groups[0].E.front(), u.groups[0].E.back() }; es.push_back( es[0] + ( es[1] - es[0] ) * g.real( 0., 1. ) ); return { "unresolved system", [=] { return evaluations( legacygen::systemOf( u ), es ); } }; }
    case 3: { double E = g.logreal( 1e-3, 1e6 ); bool rmoore = g.boolean(), multi = g.boolean(); auto d = endfgen::data( g, E, 3, 4, rmoore, true ); auto es = energies( g, E ); auto r = rmoore ? endfgen::reichMoore( d ) : endfgen::breitWigner( d, multi ); bool build = g.boolean();
      std::string t = d.I2 % 2 ? "U235" : "Fe56"; double mn = d.mn; auto once = [=] ( rm::Reconstructor& x ) { Out o; for ( double e : es ) add( o, x( eV( e ) ) ); return o; };
      if ( build ) return { "fromENDF", [=] { return Job{ "", [=] { auto x = reconstructor( r, mn, t ); return once( x ); } }; } };
      return { "Reconstructor", [=] { auto x = std::make_shared< rm::Reconstructor >( reconstructor( r, mn, t ) ); return Job{ "", [=] { return once( *x ); } }; } }; }
    case 4: { double E = g.logreal( 1e-3, 1e6 ); auto d = endfgen::data( g, E, 3, 4, true ); auto es = energies( g, E ); auto r = endfgen::reichMoore( d ); return { "older Reich-Moore", [=] { return Job{ "", [=] { Out o; rr::reichMoore::Apply()( r, [&] ( auto&& type ) {
      for ( double e : es ) { auto s = type( eV( e ) ); o.push_back( s.elastic.value ); o.push_back( s.capture.value ); o.push_back( s.fission.value ); } return 0; } ); return o; } }; } }; }
    default: { double E = g.logreal( 1e-3, 1e6 ); bool multi = g.boolean(); auto d = endfgen::data( g, E, 3, 4, false ); auto es = energies( g, E ); auto r = endfgen::breitWigner( d, multi ); return { "older Breit-Wigner", [=] { return Job{ "", [=] { Out o; auto f = [&] ( auto&& type ) {
      for ( double e : es ) { auto s = type( eV( e ) ); o.push_back( s.elastic.value ); o.push_back( s.capture.value ); o.push_back( s.fission.value ); } return 0; };
      if ( multi ) rr::breitWigner::multiLevel::Apply()( r, f ); else rr::breitWigner::singleLevel::Apply()( r, f ); return o; } }; } }; }
  }
}
// const members of one channel, shared by all threads
static Maker shared( pbt::Src& g ) {
  System s = pairs( g, g.chance( 20 ) ); Options o; o.E = energy( g ); o.q = qvalues( g, s, o.E ); Group gr; gr.J2 = 1; gr.parity = 1; Chan c = channelFor( g, s, int( g.below( 6 ) ), o ); gr.ch = { c }; s.groups = { gr }; auto es = energies( g, o.E );
  auto p = std::make_shared< const rm::ParticleChannel >( channel( s, gr, c ) );
  return { "channel " + channelId( s, gr, c ), [=] { return Job{ "", [=] { Out out; std::visit( [&] ( const auto& ch ) { for ( double E : es ) { out.push_back( ch.waveNumber( eV( E ) ).value ); out.push_back( ch.sommerfeldParameter( eV( E ) ) ); out.push_back( ch.penetrability( eV( E ) ) );
    out.push_back( ch.shiftFactor( eV( E ) ) ); out.push_back( ch.phaseShift( eV( E ) ) ); out.push_back( ch.coulombPhaseShift( eV( E ) ) ); out.push_back( ch.belowThreshold( eV( E ) ) ); } out.push_back( hash( ch.channelID() ) ); out.push_back( ch.statisticalSpinFactor() ); }, *p ); return out; } }; } };
}
static void concurrently( pbt::Case& c, const std::vector< std::vector< Maker > >& plan, int rounds ) {
  std::vector< std::vector< Job > > jobs; std::vector< std::vector< Out > > alone;
  // each on its own first, with objects of its own: this must not depend on anything else, either
  for ( auto& t : plan ) { std::vector< Job > v; std::vector< Out > w; for ( auto& m : t ) { w.push_back( guarded( m.make() ) ); v.push_back( m.make() ); } jobs.push_back( v ); alone.push_back( w ); }
  std::atomic< int > waiting{ 0 }; std::atomic< bool > wrong{ false }; std::vector< std::string > message( plan.size() ); int n = int( plan.size() );
  std::vector< std::thread > threads;
  for ( int t = 0; t < n; ++t ) threads.emplace_back( [&, t] {
    ++waiting; while ( waiting < n ) std::this_thread::yield();
    for ( int r = 0; r < rounds and not wrong; ++r ) for ( std::size_t j = 0; j < jobs[t].size(); ++j ) { Out o = guarded( jobs[t][j] );
      if ( not same( o, alone[t][j] ) ) { message[t] = pbt::cat( plan[t][j].what, " gives another result while other threads evaluate" ); for ( std::size_t i = 0; i < o.size() and i < alone[t][j].size(); ++i ) if ( not ( o[i] == alone[t][j][i] ) ) { message[t] += pbt::cat( ": ", o[i], " instead of ", alone[t][j][i] ); break; } wrong = true; return; } } } );
  for ( auto& t : threads ) t.join();
  for ( auto& m : message ) c.require( m.empty(), m );
}
static std::vector< std::vector< Maker > > plan( pbt::Src& g, pbt::Case& c, Maker (*one)( pbt::Src& ) ) {
  int n = int( g.integer( 2, 4 ) ); std::vector< std::vector< Maker > > p; Maker first = one( g ); std::set< std::string > kinds;
  for ( int t = 0; t < n; ++t ) { std::vector< Maker > v; int m = int( g.integer( 1, 3 ) ); for ( int i = 0; i < m; ++i ) v.push_back( t == 0 and i == 0 ? first : g.chance( 30 ) ? first : one( g ) ); p.push_back( v ); }
  for ( int t = 0; t < n; ++t ) for ( auto& m : p[t] ) { c.note( "thread ", t, ": ", m.what ); kinds.insert( m.what ); } c.nontrivial( kinds.size() > 1 ); return p;
}
FACET( "C25", "concurrent functions", 12000, 400000, "2-4 threads, each repeating 1-3 calls of the hard-sphere, Coulomb, spin, identifier and fluctuation functions 60 times: every result is that of the call alone; non-trivial: different calls" ) {
  concurrently( c, plan( g, c, functions ), 60 ); }
FACET( "C25", "concurrent evaluations", 5000, 150000, "2-4 threads, each with 1-3 systems of its own (Reich-Moore, Breit-Wigner, unresolved; from ENDF data or not; the older interface), building and evaluating them 12 times: every result is that of the evaluation alone; non-trivial: different systems" ) {
  concurrently( c, plan( g, c, objects ), 12 ); }
FACET( "C25", "concurrent use of one channel", 4000, 150000, "2-4 threads, each with the const members of 1-3 channels, some of them shared between threads, 60 times: every result is that of the call alone; non-trivial: different channels" ) {
  concurrently( c, plan( g, c, shared ), 60 ); }
int main( int argc, char** argv ) { return pbt::main( argc, argv ); }
