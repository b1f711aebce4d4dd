// Generators of compound systems, and their translation to the library's classes.
#ifndef VERIF_RMBUILD
#define VERIF_RMBUILD
#include "pbt.hpp"
#include "rmref.hpp"

namespace rr = njoy::resonanceReconstruction;
namespace rm = njoy::resonanceReconstruction::rmatrix;
using rr::Energy; using rr::CrossSection; using rr::ReducedWidth; using rr::ChannelRadius; using rr::AtomicMass; using rr::ElectricalCharge;
typedef std::map< rm::ReactionID, CrossSection > Sigma;
typedef std::map< std::string, std::complex< double > > TMap;

namespace gen {
using namespace rmref;

inline Energy eV( double x ) { return x * dimwits::electronVolt; }
inline ReducedWidth rootEV( double x ) { return x * rr::rootElectronVolt; }
inline ChannelRadius rad( double x ) { return x * rr::rootBarn; }
inline rm::Particle particle( const Part& p ) {
  return rm::Particle( rm::ParticleID( p.id ), p.mass * dimwits::daltons, ( double( p.Z ) * 1.6021766208e-19 ) * dimwits::coulombs, p.spin2 / 2., short( p.parity ) ); }
inline rm::ParticlePair pair( const Pair& p ) {
  if ( p.id.empty() ) return rm::ParticlePair( particle( p.a ), particle( p.b ) );
  return rm::ParticlePair( particle( p.a ), particle( p.b ), rm::ParticlePairID( p.id ) ); }
inline rm::ChannelQuantumNumbers numbers( const Group& g, const Chan& c ) { return rm::ChannelQuantumNumbers( unsigned( c.l ), c.s2 / 2., g.J2 / 2., short( g.parity ) ); }
inline rm::ChannelRadii radii( const Chan& c ) {
  if ( c.rP == c.rS and c.rS == c.rF ) return rm::ChannelRadii( rad( c.rP ) );
  if ( c.rP == c.rS ) return rm::ChannelRadii( rad( c.rP ), rad( c.rF ) );
  return rm::ChannelRadii( rad( c.rP ), rad( c.rS ), rad( c.rF ) ); }
template< class T > rm::Channel< T > channelOf( const System& s, const Group& g, const Chan& c ) {
  if ( c.other.empty() ) return rm::Channel< T >( pair( s.pairs[0] ), pair( s.pairs[c.pair] ), eV( c.q ), numbers( g, c ), radii( c ), c.B );
  return rm::Channel< T >( pair( s.pairs[0] ), pair( s.pairs[c.pair] ), c.other, eV( c.q ), numbers( g, c ), radii( c ), c.B ); }
inline rm::ParticleChannel channel( const System& s, const Group& g, const Chan& c ) {
  switch ( c.type ) {
    case neutron: return channelOf< rm::Neutron >( s, g, c );
    case photon: return channelOf< rm::Photon >( s, g, c );
    case charged: return channelOf< rm::ChargedParticle >( s, g, c );
    default: return channelOf< rm::Fission >( s, g, c );
  }
}
inline std::vector< rm::ParticleChannel > channels( const System& s, const Group& g ) {
  std::vector< rm::ParticleChannel > v; for ( auto& c : g.ch ) v.push_back( channel( s, g, c ) ); return v; }
inline rm::ResonanceTable table( const System& s, const Group& g ) {
  std::vector< std::string > ids; for ( auto& c : g.ch ) ids.push_back( channelId( s, g, c ) );
  std::vector< rm::Resonance > res;
  for ( auto& r : g.res ) { std::vector< ReducedWidth > w; for ( double x : r.w ) w.push_back( rootEV( x ) );
    if ( r.el == 0. and r.w.size() % 2 ) res.emplace_back( eV( r.E ), std::move( w ) ); // default eliminated width
    else res.emplace_back( eV( r.E ), std::move( w ), rootEV( r.el ) ); }
  return rm::ResonanceTable( std::move( ids ), std::move( res ) ); }
template< class B > rm::SpinGroup< rm::ReichMoore, B > group( const System& s, const Group& g ) {
  return rm::SpinGroup< rm::ReichMoore, B >( channels( s, g ), table( s, g ) ); }
template< class B > rm::CompoundSystem< rm::ReichMoore, B > compound( const System& s ) {
  std::vector< rm::SpinGroup< rm::ReichMoore, B > > v; for ( auto& g : s.groups ) v.push_back( group< B >( s, g ) );
  return rm::CompoundSystem< rm::ReichMoore, B >( std::move( v ) ); }

// ------------------------------------------------------------------ generation
struct Nuclide { const char* name; int Z, A; };
inline const std::vector< Nuclide >& nuclides() { static const std::vector< Nuclide > n = {
  { "U235", 92, 235 }, { "Cl35", 17, 35 }, { "Fe56", 26, 56 }, { "Be9", 4, 9 }, { "Pu239", 94, 239 }, { "O16", 8, 16 }, { "Na22", 11, 22 } }; return n; }

inline double radius( pbt::Src& g ) { return g.real( 0.1, 1.2 ); } // in barn^1/2
inline double energy( pbt::Src& g ) { return g.chance( 70 ) ? g.logreal( 1e-2, 2e6 ) : g.logreal( 1e-5, 2e7 ); }

inline System pairs( pbt::Src& g, bool chargedIncident ) {
  System s;
  const Nuclide& t = g.pick( nuclides() );
  auto spin = [&] { return int( g.below( 10 ) ); };
  auto mass = [&] ( double A ) { return A * g.real( 0.99, 1.01 ); };
  Part n{ "n", 1.00866491582, 0, 1, 1 }, p{ "p", 1.00727646688, 1, 1, 1 }, a{ "he4", 4.001506179, 2, 0, 1 }, ph{ "photon", 0., 0, 2, 1 };
  auto nucleus = [&] ( int dZ, int dA, const char* suffix ) {
    static const char* names[] = { "n", "H", "He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co",
      "Ni", "Cu" };
    int Z = t.Z + dZ; std::string el = Z < 28 ? names[Z] : Z == 90 ? "Th" : Z == 91 ? "Pa" : Z == 92 ? "U" : Z == 93 ? "Np" : Z == 94 ? "Pu" : Z == 95 ? "Am" : "Ni";
    return Part{ el + std::to_string( t.A + dA ) + suffix, mass( t.A + dA ), Z, spin(), g.boolean() ? 1 : -1 }; };
  Part target = nucleus( 0, 0, "" );
  if ( not chargedIncident ) {
    s.pairs.push_back( { n, target, "" } );                    // 0 elastic
    s.pairs.push_back( { n, nucleus( 0, 0, "_e1" ), "" } );    // 1 inelastic
    s.pairs.push_back( { n, nucleus( 0, 0, "_e2" ), "" } );    // 2 inelastic
    s.pairs.push_back( { ph, nucleus( 0, 1, "" ), "" } );      // 3 photon
    s.pairs.push_back( { p, nucleus( -1, 0, "" ), "" } );      // 4 proton
    s.pairs.push_back( { a, nucleus( -2, -3, "" ), "" } );     // 5 alpha
    s.pairs.push_back( { n, target, "fission" } );             // 6 fission
  } else {
    s.pairs.push_back( { p, target, "" } );
    s.pairs.push_back( { p, nucleus( 0, 0, "_e1" ), "" } );
    s.pairs.push_back( { n, nucleus( 1, 0, "" ), "" } );
    s.pairs.push_back( { ph, nucleus( 1, 1, "" ), "" } );
    s.pairs.push_back( { n, nucleus( 1, 0, "_e1" ), "" } );
    s.pairs.push_back( { a, nucleus( -1, -3, "" ), "" } );
    s.pairs.push_back( { p, target, "fission" } );
  }
  return s;
}
inline Type typeOf( const System& s, int pair ) {
  if ( pair == 6 ) return fission; if ( pair == 3 ) return photon; return s.pairs[pair].a.Z ? charged : neutron; }

struct Options { double E = 1; std::vector< double > q; bool uncharged = false, capture = true; int maxChannels = 6, maxResonances = 6; };

inline Chan channelFor( pbt::Src& g, const System& s, int pair, const Options& o ) {
  Chan c; c.pair = pair; c.type = typeOf( s, pair ); c.q = pair == 0 ? 0. : o.q[pair];
  c.l = int( c.type == charged ? g.below( 4 ) : g.below( 5 ) ); c.s2 = int( g.below( 8 ) );
  c.rP = radius( g ); c.rS = g.chance( 30 ) ? radius( g ) : c.rP; c.rF = g.chance( 60 ) ? radius( g ) : c.rS;
  c.B = g.chance( 50 ) ? -double( c.l ) : g.chance( 50 ) ? 0. : g.real( -4., 4. );
  return c;
}
// Q values per pair: open, closed, and close to or at the threshold
inline std::vector< double > qvalues( pbt::Src& g, const System& s, double E ) {
  std::vector< double > q( s.pairs.size(), 0. );
  double cm = E * double( ratio( s.pairs[0] ) );
  for ( std::size_t i = 1; i < q.size(); ++i ) switch ( g.below( 5 ) ) {
    case 0: q[i] = 0.; break;
    case 1: q[i] = g.logreal( 1., 1e7 ); break;
    case 2: q[i] = -g.logreal( 1., 1e7 ); break;
    case 3: q[i] = -cm * g.real( 0.5, 1. ); break;
    default: q[i] = -cm * g.real( 1., 1.5 ); break;
  }
  return q;
}
// a spin group; at least one incident channel
inline Group spinGroup( pbt::Src& g, const System& s, int J2, int parity, const Options& o ) {
  Group gr; gr.J2 = J2; gr.parity = parity;
  int n = int( g.count( 1, o.maxChannels, 14 ) );
  std::set< std::string > used; int fissions = 0;
  for ( int i = 0; i < n; ++i ) {
    int p = i == 0 ? 0 : int( g.below( s.pairs.size() ) );
    if ( o.uncharged and typeOf( s, p ) == charged ) p = 0;
    Chan c = channelFor( g, s, p, o );
    if ( c.type == fission ) c.other = "fission" + std::to_string( ++fissions );
    if ( used.insert( channelId( s, gr, c ) ).second ) gr.ch.push_back( c );
  }
  if ( gr.ch.size() > 1 ) std::rotate( gr.ch.begin(), gr.ch.begin() + long( g.below( gr.ch.size() ) ), gr.ch.end() );
  int m = int( o.maxResonances ? g.count( 0, o.maxResonances, 50 ) : 0 );
  for ( int i = 0; i < m; ++i ) {
    Reso r; double big = 0;
    for ( std::size_t j = 0; j < gr.ch.size(); ++j ) { double w = g.chance( 15 ) ? 0. : g.logreal( 1e-5, 30. ); if ( g.boolean() ) w = -w; r.w.push_back( w ); big = std::max( big, w * w ); }
    r.el = o.capture and not g.chance( 15 ) ? g.logreal( 1e-3, 1. ) * ( g.boolean() ? -1 : 1 ) : 0.;
    big = std::max( big, r.el * r.el );
    switch ( g.below( 4 ) ) {
      case 0: r.E = g.logreal( 1e-3, 1e7 ); break;
      case 1: r.E = -g.logreal( 1e-3, 1e5 ); break;
      case 2: r.E = o.E + big * g.real( -3., 3. ); break;
      default: r.E = o.E * g.real( 0.3, 2. ); break;
    }
    if ( r.E == o.E and r.el == 0. ) r.E = o.E * 1.5; // undefined there (documented)
    gr.res.push_back( r );
  }
  return gr;
}
inline System system( pbt::Src& g, Options& o, int maxGroups, bool allowChargedIncident = true ) {
  System s = pairs( g, allowChargedIncident and not o.uncharged and g.chance( 15 ) );
  o.E = energy( g ); if ( s.pairs[0].a.Z ) o.E = g.logreal( 1e4, 1e7 );
  o.q = qvalues( g, s, o.E );
  int n = int( maxGroups > 1 ? g.count( 1, maxGroups, 14 ) : 1 ), odd = int( g.below( 2 ) );
  std::set< std::pair< int, int > > used;
  for ( int i = 0; i < n; ++i ) {
    int J2 = 2 * int( g.below( 5 ) ) + odd, parity = g.boolean() ? 1 : -1;
    if ( used.insert( { J2, parity } ).second ) s.groups.push_back( spinGroup( g, s, J2, parity, o ) );
  }
  return s;
}
inline void describe( pbt::Case& c, const System& s, double E ) {
  if ( not c.verbose ) return;
  c.note( "E=", E );
  for ( std::size_t i = 0; i < s.pairs.size(); ++i ) c.note( "pair ", i, " ", pairId( s.pairs[i] ), " masses ", s.pairs[i].a.mass, " ", s.pairs[i].b.mass, " spins ", s.pairs[i].a.spin2, "/2 ", s.pairs[i].b.spin2, "/2" );
  for ( auto& g : s.groups ) {
    for ( auto& k : g.ch ) c.note( "channel ", channelId( s, g, k ), " q=", k.q, " radii ", k.rP, " ", k.rS, " ", k.rF, " B=", k.B );
    for ( auto& r : g.res ) { std::string w; for ( double x : r.w ) w += " " + pbt::num( x ); c.note( "resonance E=", r.E, " widths", w, " eliminated ", r.el ); }
  }
}

// a channel so close to its threshold that rounding decides whether it is open
inline bool doubtful( const System& s, double E ) {
  for ( auto& g : s.groups ) for ( auto& k : g.ch ) if ( k.q != 0 and std::fabs( available( s, k, E ) ) < 1e-6L * E ) return true;
  return false;
}
// the channel functions: independent for neutron, photon and fission channels; for a charged particle channel
// taken from the library (they are checked on their own)
inline std::vector< Wave > waves( const System& s, const Group& g, double E ) {
  std::vector< Wave > v;
  for ( auto& c : g.ch ) {
    Wave w{ 1, 0, 0, 0, available( s, c, E ) >= 0 };
    if ( c.type == neutron ) { R kk = k( s, c, E ); w.P = hardsphere::PS( c.l, kk * c.rP ).P; w.S = hardsphere::PS( c.l, kk * c.rS ).S; w.phi = phase( c.l, kk * c.rF );
      R a = std::fabs( available( s, c, E ) ); w.dP = 1e-14L + 2e-15L * ( 2 * c.l + 1 ) * ( std::fabs( R( E ) ) + std::fabs( R( c.q ) ) ) / a; w.dS = 2 * w.dP * std::fabs( w.S + c.l ); }
    if ( c.type == charged ) { auto ch = channelOf< rm::ChargedParticle >( s, g, c ); w.P = ch.penetrability( eV( E ) ); w.S = ch.shiftFactor( eV( E ) ); w.phi = ch.phaseShift( eV( E ) ); w.w = ch.coulombPhaseShift( eV( E ) ); }
    v.push_back( w );
  }
  return v;
}
struct Expected { std::map< std::string, R > sigma; std::map< std::string, R > error; };
// expected cross sections in barn, with rounding error estimates, added to out; false: too ill-conditioned to compare
inline bool expected( const System& s, const Group& g, double E, bool shift, Expected& out ) {
  auto wv = waves( s, g, E ); auto m = collision( g, wv, E, shift );
  if ( not ( m.worst < 1e-6L ) ) return false;
  const Chan* in = nullptr; for ( auto& c : g.ch ) if ( c.pair == 0 ) { in = &c; break; }
  R kk = k( s, *in, E ), f = pi / ( kk * kk ) * rmref::g( s, g, 0 );
  R phis = 0; for ( auto& w : wv ) phis = std::max( phis, std::fabs( w.phi ) + std::fabs( w.w ) );
  R base = 4e-15L * ( 1 + phis );
  for ( std::size_t i = 0; i < g.ch.size(); ++i ) {
    if ( g.ch[i].pair != 0 ) continue;
    R rest = 1, lost = 0;
    for ( std::size_t j = 0; j < g.ch.size(); ++j ) {
      Z d = ( i == j ? std::polar( R( 1 ), 2 * wv[i].w ) : Z( 0 ) ) - m.U[i][j];
      auto id = reactionId( s, g.ch[j] ); R err = 2 * m.error[i][j] + ( i == j ? base : base * std::abs( m.T[i][j] ) );
      out.sigma[id] += f * std::norm( d ); out.error[id] += f * ( 2 * std::abs( d ) * err + err * err + 1e-12L * std::norm( d ) );
      rest -= std::norm( m.U[i][j] ); lost += 2 * std::abs( m.U[i][j] ) * err + err * err + 1e-15L;
    }
    auto id = captureId( s ); out.sigma[id] += f * rest; out.error[id] += f * lost;
  }
  return true;
}
inline void compare( pbt::Case& c, const Sigma& got, const Expected& want, const char* what ) {
  for ( auto& w : want.sigma ) {
    auto it = got.find( rm::ReactionID( w.first ) );
    c.require( it != got.end(), what, ": no cross section for ", w.first );
    c.close( it->second.value, double( w.second ), 0., double( want.error.at( w.first ) ), what, ": ", w.first );
  }
  c.require( got.size() == want.sigma.size(), what, ": ", got.size(), " reactions instead of ", want.sigma.size() );
}
}
#endif
