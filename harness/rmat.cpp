// Harness for the R-matrix classes (complete library with the stand-ins for its dependencies):
// kinematics, channels, Reich-Moore spin groups and compound systems, grids, validation.
#include "resonanceReconstruction.hpp"
#include "rmbuild.hpp"
using namespace gen;
using rmref::R; using rmref::Z;

template< class F > static bool throws( F&& f ) { try { f(); } catch ( const std::exception& ) { return true; } return false; }

// one random channel of any type
static bool oneChannel( pbt::Src& g, System& s, Group& gr, Chan& c, double& E ) {
  s = pairs( g, g.chance( 25 ) ); E = energy( g ); Options o; o.E = E; o.q = qvalues( g, s, E );
  gr.J2 = int( g.below( 14 ) ); gr.parity = g.boolean() ? 1 : -1;
  c = channelFor( g, s, int( g.below( s.pairs.size() ) ), o );
  if ( g.chance( 20 ) ) c.other = "other" + std::to_string( g.below( 3 ) );
  gr.ch = { c }; s.groups = { gr };
  return true;
}
// ------------------------------------------------------------------------------------ C07
FACET( "C07", "wave number and Sommerfeld parameter", 4000000, 16000000,
       "any channel type, incident neutron or proton, E in [1e-5,2e7], open and closed channels; non-trivial: not the elastic channel" ) {
  System s; Group gr; Chan c1; double E; oneChannel( g, s, gr, c1, E );
  if ( g.chance( 10 ) ) E = -E; // bound levels use the absolute value
  describe( c, s, E ); c.nontrivial( c1.pair != 0 );
  R avail = available( s, c1, E ), scale = std::fabs( R( E ) ) + std::fabs( R( c1.q ) );
  if ( std::fabs( avail ) < 1e-9L * scale and c1.q != 0 ) throw pbt::Skip{};
  double amp = double( scale / std::fabs( avail ) ) * 1e-15 + 1e-13;
  std::visit( [&] ( const auto& ch ) {
    c.close( ch.waveNumber( eV( E ) ).value, double( k( s, c1, E ) ), amp, 0., "wave number" );
    c.close( ch.sommerfeldParameter( eV( E ) ), double( eta( s, c1, E ) ), amp, 0., "Sommerfeld parameter" );
    c.require( ch.belowThreshold( eV( E ) ) == ( avail < 0 ), "below threshold: ", ch.belowThreshold( eV( E ) ), " with ", double( avail ), " eV available" );
    c.label( avail < 0 ? "closed" : "open" );
  }, channel( s, gr, c1 ) );
}
FACET( "C07", "thresholds", 2000000, 8000000, "Q such that the channel opens at E exactly or within a few units in the last place (mass ratios exactly representable, so that the threshold is), or a few dozen units away (any masses); non-trivial: every case" ) {
  System s = pairs( g, g.chance( 20 ) ); double E = energy( g ); Group gr; bool exact = g.boolean(); int unit = exact ? 1 : 8;
  if ( exact ) { int e = int( g.below( 8 ) ); s.pairs[0].a.mass = std::ldexp( 1., e ); s.pairs[0].b.mass = s.pairs[0].a.mass * double( ( 1 << g.integer( 1, 7 ) ) - 1 ); E = std::ldexp( double( g.integer( 1, 1 << 20 ) ), int( g.integer( -20, 4 ) ) ); c.label( "exact" ); } gr.J2 = 1; gr.parity = 1;
  Options o; o.E = E; o.q = qvalues( g, s, E );
  Chan c1 = channelFor( g, s, int( g.integer( 1, 5 ) ), o );
  auto inc = pair( s.pairs[0] );
  double cm = inc.massRatio() * E; int ulps = unit * int( g.integer( -3, 3 ) ); double q = -cm;
  for ( int i = 0; i < std::abs( ulps ); ++i ) q = std::nextafter( q, ulps > 0 ? 0. : -1e300 );
  c1.q = q; gr.ch = { c1 }; s.groups = { gr }; describe( c, s, E ); c.nontrivial();
  std::visit( [&] ( const auto& ch ) {
    if ( exact or ulps ) c.require( ch.belowThreshold( eV( E ) ) == ( q < -cm ), "below threshold: ", ch.belowThreshold( eV( E ) ), " with ", q + cm, " eV available" );
    double kk = ch.waveNumber( eV( E ) ).value; c.require( std::isfinite( kk ) and kk >= 0, "the wave number is ", kk );
    if ( ulps == 0 and exact ) { c.require( kk == 0., "the wave number at the threshold is ", kk );
      double P = ch.penetrability( eV( E ) ), S = ch.shiftFactor( eV( E ) ), F = ch.phaseShift( eV( E ) );
      c.require( P == ( c1.type == neutron or c1.type == charged ? 0. : 1. ), "the penetrability at the threshold is ", P );
      double W = ch.coulombPhaseShift( eV( E ) );
      c.require( std::isfinite( W ) and ( W == 0. or ( c1.type == charged and c1.l > 0 ) ), "the Coulomb phase shift at the threshold is ", W );
      c.require( std::isfinite( S ) and F == 0., "shift factor ", S, " and phase shift ", F, " at the threshold" ); }
  }, channel( s, gr, c1 ) );
}
FACET( "C07", "particle pair and channel", 2000000, 8000000, "reduced mass, mass ratio, statistical factor, identifiers, everything given comes back; non-trivial: not the elastic channel" ) {
  System s; Group gr; Chan c1; double E; oneChannel( g, s, gr, c1, E ); describe( c, s, E ); c.nontrivial( c1.pair != 0 );
  const Pair& p = s.pairs[c1.pair]; auto pp = pair( p );
  c.close( pp.reducedMass().value, double( reduced( p ) ), 1e-14, 0., "reduced mass" );
  c.close( pp.massRatio(), double( ratio( p ) ), 1e-14, 0., "mass ratio" );
  c.require( pp.pairID().symbol() == pairId( p ), "pair identifier ", pp.pairID().symbol() );
  auto same = [&] ( const rm::Particle& x, const Part& y ) { return x.particleID().symbol() == y.id and x.mass().value == y.mass and x.charge().value == double( y.Z ) * 1.6021766208e-19
                                                                    and x.spin() == y.spin2 / 2. and x.parity() == y.parity; };
  c.require( same( pp.particle(), p.a ) and same( pp.residual(), p.b ), "the particles of the pair" );
  std::visit( [&] ( const auto& ch ) {
    c.close( ch.statisticalSpinFactor(), double( rmref::g( s, gr, c1.pair ) ), 1e-14, 0., "statistical spin factor" );
    c.require( ch.channelID() == channelId( s, gr, c1 ), "channel identifier ", ch.channelID() );
    c.require( ch.reactionID().symbol() == reactionId( s, c1 ), "reaction identifier ", ch.reactionID().symbol(), " instead of ", reactionId( s, c1 ) );
    c.require( ch.isIncidentChannel() == ( c1.pair == 0 ), "incident channel: ", ch.isIncidentChannel() );
    c.require( ch.incidentParticlePair().pairID() == pair( s.pairs[0] ).pairID() and ch.particlePair().pairID() == pp.pairID(), "particle pairs of the channel" );
    c.require( same( ch.particlePair().residual(), p.b ) and same( ch.incidentParticlePair().residual(), s.pairs[0].b ), "residuals of the channel" );
    c.require( ch.Q().value == c1.q and ch.boundaryCondition() == c1.B, "Q value or boundary condition of the channel" );
    auto n = ch.quantumNumbers(); c.require( n.orbitalAngularMomentum() == unsigned( c1.l ) and n.spin() == c1.s2 / 2. and n.totalAngularMomentum() == gr.J2 / 2. and n.parity() == gr.parity, "quantum numbers of the channel" );
  }, channel( s, gr, c1 ) );
}

// ------------------------------------------------------------------------------------ C08
typedef rm::MultiRegionTable< Energy, ChannelRadius > RadiusTable;
struct Tab { std::vector< int > law; std::vector< std::vector< double > > x, y; };
static Tab anyTable( pbt::Src& g ) {
  Tab t; double e = g.logreal( 1e-5, 1. ); int regions = int( g.integer( 1, 3 ) );
  for ( int i = 0; i < regions; ++i ) {
    t.law.push_back( int( g.integer( 1, 5 ) ) ); t.x.emplace_back(); t.y.emplace_back();
    int n = int( g.integer( 2, 5 ) );
    for ( int j = 0; j < n; ++j ) { if ( j > 0 ) e *= 1 + g.logreal( 1e-2, 1e3 ); t.x.back().push_back( e ); t.y.back().push_back( radius( g ) ); }
  }
  return t;
}
static rm::ChannelRadiusTable make( const Tab& t ) {
  std::vector< rm::TableVariant< Energy, ChannelRadius > > v;
  for ( std::size_t i = 0; i < t.law.size(); ++i ) {
    std::vector< Energy > x; std::vector< ChannelRadius > y;
    for ( double e : t.x[i] ) x.push_back( eV( e ) ); for ( double r : t.y[i] ) y.push_back( rad( r ) );
    switch ( t.law[i] ) {
      case 1: v.push_back( rm::HistogramTable< Energy, ChannelRadius >( std::move( x ), std::move( y ) ) ); break;
      case 2: v.push_back( rm::LinLinTable< Energy, ChannelRadius >( std::move( x ), std::move( y ) ) ); break;
      case 3: v.push_back( rm::LinLogTable< Energy, ChannelRadius >( std::move( x ), std::move( y ) ) ); break;
      case 4: v.push_back( rm::LogLinTable< Energy, ChannelRadius >( std::move( x ), std::move( y ) ) ); break;
      default: v.push_back( rm::LogLogTable< Energy, ChannelRadius >( std::move( x ), std::move( y ) ) ); break;
    } }
  return rm::ChannelRadiusTable( RadiusTable( std::move( v ) ) );
}
static double lookup( const Tab& t, double e ) { // interior points only
  for ( std::size_t i = 0; i < t.law.size(); ++i ) for ( std::size_t j = 1; j < t.x[i].size(); ++j ) {
    double x0 = t.x[i][j-1], x1 = t.x[i][j], y0 = t.y[i][j-1], y1 = t.y[i][j];
    if ( not ( e > x0 and e < x1 ) ) continue;
    switch ( t.law[i] ) {
      case 1: return y0; case 2: return y0 + ( y1 - y0 ) * ( e - x0 ) / ( x1 - x0 );
      case 3: return y0 + ( y1 - y0 ) * std::log( e / x0 ) / std::log( x1 / x0 );
      case 4: return std::exp( std::log( y0 ) + std::log( y1 / y0 ) * ( e - x0 ) / ( x1 - x0 ) );
      default: return std::exp( std::log( y0 ) + std::log( y1 / y0 ) * std::log( e / x0 ) / std::log( x1 / x0 ) ); } }
  throw pbt::Skip{};
}
static double pointIn( pbt::Src& g, const Tab& t ) {
  std::size_t i = g.below( t.x.size() ), j = g.integer( 1, long( t.x[i].size() ) - 1 );
  double a = t.x[i][j-1], b = t.x[i][j]; return a + ( b - a ) * g.real( 0.01, 0.99 );
}
FACET( "C08", "channel radii", 1500000, 8000000,
       "one, two or three radii, each constant or an energy-dependent table (up to three regions, all ENDF interpolation laws); non-trivial: at least one table" ) {
  bool tab[3]; double value[3]; Tab t[3]; int n = int( g.integer( 1, 3 ) ); double E = energy( g );
  for ( int i = 0; i < n; ++i ) { tab[i] = g.chance( 50 ); if ( tab[i] ) t[i] = anyTable( g ); else value[i] = radius( g ); }
  for ( int i = 0; i < n; ++i ) if ( tab[i] ) { E = pointIn( g, t[i] ); break; }
  for ( int i = 0; i < n; ++i ) if ( tab[i] ) { value[i] = lookup( t[i], E ); c.nontrivial(); }
  c.note( n, " radii, E=", E ); for ( int i = 0; i < n; ++i ) c.note( tab[i] ? "table " : "constant ", value[i] );
  typedef std::variant< ChannelRadius, rm::ChannelRadiusTable > V;
  auto v = [&] ( int i ) -> V { if ( tab[i] ) return make( t[i] ); return rad( value[i] ); };
  rm::ChannelRadii r = n == 1 ? rm::ChannelRadii( v( 0 ) ) : n == 2 ? rm::ChannelRadii( v( 0 ), v( 1 ) ) : rm::ChannelRadii( v( 0 ), v( 1 ), v( 2 ) );
  rm::ChannelRadii copy = r;
  for ( auto& x : { r, copy } ) {
    c.close( x.penetrabilityRadius( eV( E ) ).value, value[0], 1e-12, 0., "radius for the penetrability" );
    c.close( x.shiftFactorRadius( eV( E ) ).value, value[ n == 3 ? 1 : 0 ], 1e-12, 0., "radius for the shift factor" );
    c.close( x.phaseShiftRadius( eV( E ) ).value, value[ n - 1 ], 1e-12, 0., "radius for the phase shift" );
  }
}
FACET( "C08", "neutron channel functions", 3000000, 16000000,
       "P, S and phi of a neutron channel at k(E) times the radius meant for each, against the hard-sphere reference; non-trivial: l > 0" ) {
  System s; Group gr; Chan c1; double E;
  s = pairs( g, false ); E = energy( g ); Options o; o.E = E; o.q = qvalues( g, s, E ); gr.J2 = int( g.below( 8 ) ); gr.parity = 1;
  c1 = channelFor( g, s, int( g.below( 3 ) ), o ); gr.ch = { c1 }; s.groups = { gr };
  if ( g.chance( 10 ) ) E = -E;
  describe( c, s, E ); c.nontrivial( c1.l > 0 );
  R avail = available( s, c1, E ), scale = std::fabs( R( E ) ) + std::fabs( R( c1.q ) );
  if ( std::fabs( avail ) < 1e-6L * scale ) throw pbt::Skip{};
  auto ch = channelOf< rm::Neutron >( s, gr, c1 ); R kk = k( s, c1, E );
  double amp = double( scale / std::fabs( avail ) ) * 2e-15 * ( 2 * c1.l + 1 ) + 1e-13;
  c.close( ch.penetrability( eV( E ) ), double( hardsphere::PS( c1.l, kk * c1.rP ).P ), amp, 0., "penetrability" );
  c.close( ch.shiftFactor( eV( E ) ), double( hardsphere::PS( c1.l, kk * c1.rS ).S ), 0., amp * ( c1.l + double( kk ) ), "shift factor" );
  double f = ch.phaseShift( eV( E ) ), err = hardsphere::phaseError( c1.l, kk * c1.rF, f ), rho = double( kk * c1.rF );
  c.require( std::fabs( err ) <= amp * ( 1 + rho ), "the phase shift ", f, " deviates by ", err, " modulo pi" );
  c.require( ch.coulombPhaseShift( eV( E ) ) == 0., "the Coulomb phase shift of a neutron channel is not 0" );
}
FACET( "C08", "energy-dependent radius in a channel", 750000, 4000000,
       "P, S, phi of a neutron channel with radius tables, at several energies in any order; non-trivial: every case" ) {
  System s = pairs( g, false ); Group gr; gr.J2 = 1; gr.parity = 1; Options o; o.q.assign( 7, 0. ); Chan c1 = channelFor( g, s, 0, o );
  Tab a = anyTable( g ), b = anyTable( g ); double fixed = radius( g ); bool which = g.boolean();
  rm::ChannelRadii radii = which ? rm::ChannelRadii( make( a ), rad( fixed ) ) : rm::ChannelRadii( rad( fixed ), make( b ) );
  rm::Channel< rm::Neutron > ch( pair( s.pairs[0] ), pair( s.pairs[0] ), eV( 0. ), numbers( gr, c1 ), radii, 0. );
  c.nontrivial(); c.note( "l=", c1.l, which ? " table for P and S" : " table for phi", " constant ", fixed );
  for ( int i = 0; i < 3; ++i ) {
    double E = pointIn( g, which ? a : b ); double r1 = which ? lookup( a, E ) : fixed, r2 = which ? fixed : lookup( b, E ); R kk = k( s, c1, E );
    c.note( "E=", E, " radii ", r1, " ", r2 );
    c.close( ch.penetrability( eV( E ) ), double( hardsphere::PS( c1.l, kk * r1 ).P ), 1e-11, 0., "penetrability" );
    c.close( ch.shiftFactor( eV( E ) ), double( hardsphere::PS( c1.l, kk * r1 ).S ), 0., 1e-11 * ( c1.l + double( kk ) ), "shift factor" );
    double f = ch.phaseShift( eV( E ) ), err = hardsphere::phaseError( c1.l, kk * r2, f );
    c.require( std::fabs( err ) <= 1e-11 * ( 1 + double( kk ) ), "the phase shift ", f, " deviates by ", err, " modulo pi" );
  }
}
FACET( "C08", "charged particle, photon and fission channel functions", 450000, 1200000,
       "P, S and phi of a channel equal the functions of its type at l, k a and eta; non-trivial: charged particle" ) {
  System s = pairs( g, g.chance( 30 ) ); double E = g.logreal( 1e3, 2e7 ); Options o; o.E = E; o.q = qvalues( g, s, E ); Group gr; gr.J2 = 2; gr.parity = 1;
  Chan c1 = channelFor( g, s, int( g.chance( 70 ) ? g.integer( 4, 5 ) : g.integer( 0, 6 ) ), o ); if ( c1.type == neutron ) throw pbt::Skip{};
  gr.ch = { c1 }; s.groups = { gr }; describe( c, s, E ); c.nontrivial( c1.type == charged );
  double kk = double( k( s, c1, E ) ), et = double( eta( s, c1, E ) ); if ( std::fabs( available( s, c1, E ) ) < 1e-6L * E ) throw pbt::Skip{};
  std::visit( [&] ( const auto& ch ) {
    using T = std::decay_t< decltype( ch ) >;
    auto compare = [&] ( auto type ) { using Ty = decltype( type );
      double P, S, F, W;
      try { P = rm::calculatePenetrability< Ty >( c1.l, kk * c1.rP, et ); S = rm::calculateShiftFactor< Ty >( c1.l, kk * c1.rS, et );
            F = rm::calculatePhaseShift< Ty >( c1.l, kk * c1.rF, et ); W = rm::calculateCoulombPhaseShift< Ty >( c1.l, et ); }
      catch ( const std::exception& ) { throw pbt::Skip{}; } // outside of the range of the Coulomb functions
      double near = 3e-5 + 1e-12 * et; // a change of eta or rho by rounding may change the integration mesh
      c.close( ch.penetrability( eV( E ) ), P, near, 1e-75, "penetrability" );
      c.close( ch.shiftFactor( eV( E ) ), S, 0., near * ( 1 + std::fabs( S ) ) + ( P < 1e-75 ? 100. : 0. ), "shift factor" );
      double f = ch.phaseShift( eV( E ) ); c.require( std::fabs( std::sin( f - F ) ) <= near, "phase shift ", f, " instead of ", F );
      double w = ch.coulombPhaseShift( eV( E ) ); c.require( std::fabs( w - W ) <= 1e-9 * ( 1 + std::fabs( W ) + W * W ) * ( 1 + et ), "Coulomb phase shift ", w, " instead of ", W );
    };
    if constexpr ( std::is_same_v< T, rm::Channel< rm::ChargedParticle > > ) compare( rm::ChargedParticle{} );
    if constexpr ( std::is_same_v< T, rm::Channel< rm::Photon > > ) compare( rm::Photon{} );
    if constexpr ( std::is_same_v< T, rm::Channel< rm::Fission > > ) compare( rm::Fission{} );
  }, channel( s, gr, c1 ) );
}

// ------------------------------------------------------------------------------------ C09
template< class B > static void crossSections( pbt::Src& g, pbt::Case& c, bool shift, bool uncharged ) {
  Options o; o.uncharged = uncharged; System s = system( g, o, 1 ); if ( doubtful( s, o.E ) ) throw pbt::Skip{};
  describe( c, s, o.E );
  const Group& gr = s.groups[0];
  Expected want; bool ok;
  try { ok = expected( s, gr, o.E, shift, want ); } catch ( const std::exception& ) { throw pbt::Skip{}; } // Coulomb functions out of range
  if ( not ok ) throw pbt::Skip{};
  c.nontrivial( gr.ch.size() > 1 and gr.res.size() > 1 );
  if ( gr.ch.size() > 1 ) c.label( "several channels" ); if ( s.pairs[0].a.Z ) c.label( "charged incident particle" );
  for ( auto& k : gr.ch ) { if ( available( s, k, o.E ) < 0 ) c.label( "closed channel" ); if ( k.type == charged ) c.label( "charged channel" ); if ( k.type == fission ) c.label( "fission channel" ); }
  auto sg = group< B >( s, gr ); Sigma got; sg.evaluate( eV( o.E ), got );
  compare( c, got, want, "cross section" );
}
FACET( "C09", "Reich-Moore cross sections, boundary condition = shift factor", 200000, 1500000,
       "one spin group, 1-6 channels (elastic, inelastic, photon, fission), 0-6 resonances at, near and far from E; non-trivial: several channels and resonances" ) {
  crossSections< rm::ShiftFactor >( g, c, true, true ); }
FACET( "C09", "Reich-Moore cross sections, constant boundary condition", 200000, 1500000, "as above with L = S - B + iP; non-trivial: several channels and resonances" ) {
  crossSections< rm::Constant >( g, c, false, true ); }
FACET( "C09", "Reich-Moore cross sections with charged particle channels", 60000, 300000,
       "as above with proton and alpha channels, incident neutron or proton, both boundary conditions; non-trivial: several channels and resonances" ) {
  if ( g.boolean() ) crossSections< rm::ShiftFactor >( g, c, true, false ); else crossSections< rm::Constant >( g, c, false, false ); }
FACET( "C09", "hard-sphere scattering without resonances", 20000, 500000, "elastic 4 pi/k^2 g sin^2 phi per incident channel, everything else 0; non-trivial: several channels" ) {
  Options o; o.uncharged = true; o.maxResonances = 0; System s = system( g, o, 1, false ); const Group& gr = s.groups[0]; describe( c, s, o.E ); c.nontrivial( gr.ch.size() > 1 );
  Sigma got; auto sg = group< rm::ShiftFactor >( s, gr ); sg.evaluate( eV( o.E ), got );
  R want = 0, kk = 0; for ( auto& k1 : gr.ch ) if ( k1.pair == 0 ) { kk = k( s, k1, o.E ); R sn = std::sin( phase( k1.l, kk * k1.rF ) ); want += sn * sn; }
  R f = 4 * pi / ( kk * kk ) * rmref::g( s, gr, 0 );
  for ( auto& x : got ) { bool el = x.first.symbol() == reactionId( s, Chan{ neutron, 0 } );
    c.close( x.second.value, el ? double( f * want ) : 0., 1e-9, double( f ) * ( el ? 1e-13 * std::sqrt( double( want ) ) + 1e-27 : 1e-13 ), x.first.symbol() ); }
}

// ------------------------------------------------------------------------------------ C10
FACET( "C10", "unitarity", 100000, 1500000,
       "without eliminated widths the collision matrix is unitary (capture = 0); in general no cross section is negative and their sum is the total from the optical theorem; non-trivial: several channels and resonances" ) {
  Options o; o.capture = g.chance( 60 ); System s = system( g, o, 3 ); describe( c, s, o.E ); if ( doubtful( s, o.E ) ) throw pbt::Skip{};
  bool shift = g.boolean(); Expected want; bool several = false;
  try { for ( auto& gr : s.groups ) { if ( not expected( s, gr, o.E, shift, want ) ) throw pbt::Skip{}; several = several or ( gr.ch.size() > 1 and gr.res.size() > 1 ); } }
  catch ( const std::exception& ) { throw pbt::Skip{}; }
  c.nontrivial( several ); c.label( o.capture ? "eliminated capture" : "unitary" );
  Sigma got; TMap t;
  auto run = [&] ( auto system ) { system.evaluate( eV( o.E ), got ); system.evaluateTMatrix( eV( o.E ), t ); };
  if ( shift ) run( compound< rm::ShiftFactor >( s ) ); else run( compound< rm::Constant >( s ) );
  R total = 0, err = 0;
  for ( auto& x : got ) { double e = double( want.error[ x.first.symbol() ] );
    c.require( x.second.value >= -e, "the cross section ", x.first.symbol(), " is negative: ", x.second.value ); total += x.second.value; err += e; }
  if ( not o.capture ) c.close( got[ rm::ReactionID( captureId( s ) ) ].value, 0., 0., double( want.error[ captureId( s ) ] ), "capture without eliminated widths" );
  // optical theorem, with the T matrix of the library and independent phases
  R optical = 0;
  for ( auto& gr : s.groups ) {
    auto wv = waves( s, gr, o.E );
    for ( std::size_t i = 0; i < gr.ch.size(); ++i ) if ( gr.ch[i].pair == 0 ) {
      auto id = channelId( s, gr, gr.ch[i] ); Z T( t[ id + "->" + id ].real(), t[ id + "->" + id ].imag() );
      Z U = std::polar( R( 1 ), -2 * wv[i].phi ) * ( R( 1 ) + Z( 0, 2 ) * T ); // without the Coulomb phase
      R kk = k( s, gr.ch[i], o.E ); optical += 2 * pi / ( kk * kk ) * rmref::g( s, gr, 0 ) * ( 1 - U.real() ); } }
  c.close( double( total ), double( optical ), 1e-9, double( 3 * err ), "the sum of all cross sections is not the total of the optical theorem" );
}

// ------------------------------------------------------------------------------------ C11
FACET( "C11", "T matrix", 150000, 1500000,
       "every element of every spin group against the reference; symmetric; 0 for closed channels; keyed by both channel identifiers; non-trivial: several channels and resonances" ) {
  Options o; System s = system( g, o, 2 ); describe( c, s, o.E ); bool shift = g.boolean();
  if ( doubtful( s, o.E ) ) throw pbt::Skip{};
  std::map< std::string, Z > want; std::map< std::string, R > err;
  try { for ( auto& gr : s.groups ) { auto m = collision( gr, waves( s, gr, o.E ), o.E, shift ); if ( not ( m.worst < 1e-6L ) ) throw pbt::Skip{};
    c.nontrivial( gr.ch.size() > 1 and gr.res.size() > 1 );
    for ( std::size_t i = 0; i < gr.ch.size(); ++i ) for ( std::size_t j = 0; j < gr.ch.size(); ++j ) {
      auto id = channelId( s, gr, gr.ch[i] ) + "->" + channelId( s, gr, gr.ch[j] ); want[id] = m.T[i][j]; err[id] = m.error[i][j]; } } }
  catch ( const std::exception& ) { throw pbt::Skip{}; }
  TMap got; got["stale"] = 1.;
  auto run = [&] ( auto system ) { system.evaluateTMatrix( eV( o.E ), got ); };
  if ( shift ) run( compound< rm::ShiftFactor >( s ) ); else run( compound< rm::Constant >( s ) );
  c.require( got.size() == want.size() + 1 and got["stale"] == 1., got.size() - 1, " elements instead of ", want.size() );
  for ( auto& w : want ) { auto it = got.find( w.first ); c.require( it != got.end(), "no element ", w.first );
    R d = std::abs( Z( it->second.real(), it->second.imag() ) - w.second ), tol = err[w.first] + 1e-12L * std::abs( w.second );
    c.require( d <= tol, "T(", w.first, ") = ", it->second, ", expected ", std::complex< double >( w.second ), " (allowed: ", double( tol ), ")" ); }
}

// ------------------------------------------------------------------------------------ C12
// the scale of rounding errors: pi/k^2 g summed over the spin groups
static double unitScale( const System& s, double E ) {
  R x = 0; Chan in{ neutron, 0 }; in.q = 0; R kk = k( s, in, E ); for ( auto& gr : s.groups ) x += gr.ch.size() * pi / ( kk * kk ) * rmref::g( s, gr, 0 ); return double( x ); }
static void same( pbt::Case& c, const Sigma& a, const Sigma& b, double tol, double scale, const char* what ) {
  c.require( a.size() == b.size(), what, ": ", a.size(), " and ", b.size(), " reactions" );
  for ( auto& x : a ) { auto it = b.find( x.first ); c.require( it != b.end(), what, ": no ", x.first.symbol() ); c.close( it->second.value, x.second.value, tol, tol * scale, what, ": ", x.first.symbol() ); }
}
// how much the reference says double precision can resolve, relative to the unit of the cross sections
static double resolution( const System& s, double E, bool shift ) {
  if ( doubtful( s, E ) ) throw pbt::Skip{};
  Expected w; try { for ( auto& gr : s.groups ) if ( not expected( s, gr, E, shift, w ) ) throw pbt::Skip{}; } catch ( const std::exception& ) { throw pbt::Skip{}; }
  R e = 0; for ( auto& x : w.error ) e = std::max( e, x.second );
  return double( 4 * e ) / unitScale( s, E ) + 1e-12;
}
FACET( "C12", "sum over spin groups, order and history", 40000, 200000,
       "1-4 spin groups: the system equals the sum of its groups added to what is in the map, in any order of groups, channels and resonances, at any energy in any sequence, also for copies; non-trivial: several groups" ) {
  Options o; o.uncharged = g.chance( 70 ); System s = system( g, o, 4 ); bool shift = g.boolean(); describe( c, s, o.E ); c.nontrivial( s.groups.size() > 1 );
  double tol = resolution( s, o.E, shift ), unit = unitScale( s, o.E ), E2 = o.E * g.real( 0.1, 3. );
  auto run = [&] ( auto tag ) { using B = decltype( tag );
    auto whole = compound< B >( s ); Sigma a; whole.evaluate( eV( o.E ), a );
    Sigma parts; for ( auto& gr : s.groups ) { auto sg = group< B >( s, gr ); sg.evaluate( eV( o.E ), parts ); }
    same( c, a, parts, 1e-13, unit, "sum of the spin groups" );
    Sigma twice = a; whole.evaluate( eV( o.E ), twice ); Sigma doubled = a; for ( auto& x : doubled ) x.second += a[x.first];
    same( c, doubled, twice, 1e-13, unit, "accumulation" );
    Sigma other; try { whole.evaluate( eV( E2 ), other ); TMap t; whole.evaluateTMatrix( eV( E2 ), t ); } catch ( const std::exception& ) {}
    Sigma again; whole.evaluate( eV( o.E ), again ); same( c, a, again, 0., unit, "evaluation after another energy" );
    auto copy = whole; Sigma b; copy.evaluate( eV( o.E ), b ); same( c, a, b, 0., unit, "copy" );
    System p = s; // permuted
    std::reverse( p.groups.begin(), p.groups.end() );
    for ( auto& gr : p.groups ) { std::size_t n = gr.ch.size(), by = g.below( n ); bool flip = g.boolean();
      std::vector< std::size_t > at; for ( std::size_t i = 0; i < n; ++i ) at.push_back( ( i + by ) % n ); if ( flip ) std::reverse( at.begin(), at.end() );
      auto ch = gr.ch; for ( std::size_t i = 0; i < n; ++i ) gr.ch[i] = ch[ at[i] ];
      for ( auto& r : gr.res ) { auto w = r.w; for ( std::size_t i = 0; i < n; ++i ) r.w[i] = w[ at[i] ]; }
      if ( gr.res.size() > 1 ) std::rotate( gr.res.begin(), gr.res.begin() + long( g.below( gr.res.size() ) ), gr.res.end() ); }
    auto perm = compound< B >( p ); Sigma d; perm.evaluate( eV( o.E ), d ); same( c, a, d, tol, unit, "permuted groups, channels and resonances" );
    System f = s; // the sign of all widths of a resonance, and of all widths of a channel, does not matter
    for ( auto& gr : f.groups ) { for ( auto& r : gr.res ) if ( g.boolean() ) for ( auto& w : r.w ) w = -w;
      for ( std::size_t i = 0; i < gr.ch.size(); ++i ) if ( g.boolean() ) for ( auto& r : gr.res ) r.w[i] = -r.w[i];
      for ( auto& r : gr.res ) if ( g.boolean() ) r.el = -r.el; }
    auto flipped = compound< B >( f ); Sigma q; flipped.evaluate( eV( o.E ), q ); same( c, a, q, tol, unit, "signs of the reduced widths" );
  };
  if ( shift ) run( rm::ShiftFactor{} ); else run( rm::Constant{} );
}
FACET( "C12", "system from channel data", 40000, 200000,
       "the same system given channel by channel (any order, energies in any order, zero widths left out, eliminated channels) equals the one given by spin group; non-trivial: several groups" ) {
  Options o; o.uncharged = g.chance( 70 ); System s = system( g, o, 4, false ); bool shift = g.boolean();
  for ( auto& gr : s.groups ) { std::sort( gr.res.begin(), gr.res.end(), [] ( auto& a, auto& b ) { return a.E < b.E; } );
    for ( std::size_t i = 1; i < gr.res.size(); ++i ) if ( gr.res[i].E == gr.res[i-1].E ) throw pbt::Skip{};
    for ( auto& r : gr.res ) { r.el = std::fabs( r.el ); bool any = r.el != 0; for ( double w : r.w ) any = any or w != 0; if ( not any ) r.w[0] = 1.; } }
  describe( c, s, o.E ); c.nontrivial( s.groups.size() > 1 );
  for ( auto& gr : s.groups ) for ( auto& r : gr.res ) if ( r.E == o.E and r.el == 0. ) throw pbt::Skip{};
  double tol = resolution( s, o.E, shift ), unit = unitScale( s, o.E );
  auto run = [&] ( auto tag ) { using B = decltype( tag );
    std::vector< rm::ParticleChannelData > data;
    for ( auto& gr : s.groups ) {
      std::vector< rm::ParticleChannelData > mine;
      auto widths = [&] ( auto get, std::vector< Energy >& e, std::vector< ReducedWidth >& w ) { bool drop = g.boolean();
        for ( auto& r : gr.res ) { double x = get( r ); if ( x == 0. and drop ) continue; e.push_back( eV( r.E ) ); w.push_back( rootEV( x ) ); }
        if ( g.boolean() ) { std::reverse( e.begin(), e.end() ); std::reverse( w.begin(), w.end() ); } };
      for ( std::size_t i = 0; i < gr.ch.size(); ++i ) { std::vector< Energy > e; std::vector< ReducedWidth > w; widths( [&] ( auto& r ) { return r.w[i]; }, e, w );
        mine.emplace_back( channel( s, gr, gr.ch[i] ), std::move( e ), std::move( w ) ); }
      bool el = false; for ( auto& r : gr.res ) el = el or r.el != 0;
      if ( el or g.boolean() ) { Chan k; k.type = photon; k.pair = 3; k.l = 0; k.s2 = 40; k.q = 0; k.rP = k.rS = k.rF = 0.; k.B = 0; k.other = "eliminated";
        std::vector< Energy > e; std::vector< ReducedWidth > w; widths( [&] ( auto& r ) { return r.el; }, e, w );
        mine.insert( mine.begin() + long( g.below( mine.size() + 1 ) ), rm::ParticleChannelData( channel( s, gr, k ), std::move( e ), std::move( w ), true ) ); }
      // an eliminated channel must not come first only because the incident pair is asked of the first one: any position is valid
      for ( auto& d : mine ) data.push_back( d );
    }
    if ( g.boolean() ) { std::vector< rm::ParticleChannelData > r; for ( auto it = data.rbegin(); it != data.rend(); ++it ) r.push_back( *it ); data = std::move( r ); }
    rm::CompoundSystem< rm::ReichMoore, B > from( std::move( data ) ); auto to = compound< B >( s );
    Sigma a, b; from.evaluate( eV( o.E ), a ); to.evaluate( eV( o.E ), b ); same( c, b, a, tol, unit, "from channel data" );
    TMap x, y; from.evaluateTMatrix( eV( o.E ), x ); to.evaluateTMatrix( eV( o.E ), y ); c.require( x.size() == y.size(), "number of T matrix elements" );
    for ( auto& v : y ) { c.require( x.count( v.first ), "no element ", v.first ); c.require( std::abs( x[v.first] - v.second ) <= 1e-7, "T(", v.first, ") differs: ", x[v.first], " and ", v.second ); }
    auto ga = from.grid(), gb = to.grid(); c.require( ga.size() == gb.size(), "grids differ: ", ga.size(), " and ", gb.size(), " points" );
    for ( std::size_t i = 0; i < ga.size(); ++i ) c.close( ga[i].value, gb[i].value, 1e-12, 1e-13 * std::fabs( gb.back().value ), "grid point" );
  };
  if ( shift ) run( rm::ShiftFactor{} ); else run( rm::Constant{} );
}

// ------------------------------------------------------------------------------------ C13
FACET( "C13", "resonance grid", 360000, 1600000,
       "sorted, no duplicates, exactly Er and Er +- half the total width for every positive Er of every group; non-trivial: at least two positive resonances" ) {
  Options o; o.maxResonances = 8; o.uncharged = g.chance( 70 ); System s = system( g, o, 3 ); describe( c, s, o.E );
  for ( auto& gr : s.groups ) if ( gr.res.size() > 1 and g.chance( 20 ) ) gr.res[1] = gr.res[0]; // duplicates
  struct Point { double x, tol; }; std::vector< Point > want; int positive = 0;
  try {
    for ( auto& gr : s.groups ) for ( auto& r : gr.res ) if ( r.E > 0 ) { ++positive;
      auto wv = waves( s, gr, r.E ); R half = R( r.el ) * r.el, dev = 0; for ( std::size_t i = 0; i < wv.size(); ++i ) { R h = wv[i].P * R( r.w[i] ) * r.w[i]; half += h; if ( h != 0 ) dev += h * wv[i].dP; }
      double tol = double( 4 * dev + 1e-13L * ( half + r.E ) ); if ( not ( dev < 1e-6L * half ) and dev > 0 ) throw pbt::Skip{};
      want.push_back( { double( r.E - half ), tol } ); want.push_back( { r.E, 0. } ); want.push_back( { double( r.E + half ), tol } ); }
  } catch ( const std::exception& ) { throw pbt::Skip{}; }
  c.nontrivial( positive > 1 );
  auto check = [&] ( const std::vector< Energy >& got ) {
    for ( std::size_t i = 1; i < got.size(); ++i ) c.require( got[i].value > got[i-1].value, "the grid is not strictly increasing at ", got[i].value );
    for ( auto& w : want ) { bool found = false; for ( auto& x : got ) found = found or std::fabs( x.value - w.x ) <= w.tol; c.require( found, "the grid has no point at ", w.x, " (tolerance ", w.tol, ")" ); }
    for ( auto& x : got ) { bool found = false; for ( auto& w : want ) found = found or std::fabs( x.value - w.x ) <= w.tol; c.require( found, "the grid has an unexpected point ", x.value ); }
  };
  check( compound< rm::ShiftFactor >( s ).grid() ); check( compound< rm::Constant >( s ).grid() );
}

// ------------------------------------------------------------------------------------ C14
FACET( "C14", "inconsistent input is refused", 1200000, 1500000,
       "a valid system with one inconsistency (mass, charge, sizes, order, duplicate or missing channel, J, parity, incident pair, duplicate group, two eliminated channels); the valid one is accepted; non-trivial: every case" ) {
  Options o; o.uncharged = true; o.maxChannels = 4; System s = system( g, o, 3, false ); describe( c, s, o.E ); c.nontrivial();
  typedef rm::ShiftFactor B;
  c.require( not throws( [&] { compound< B >( s ); } ), "a valid system is refused" );
  Group gr = s.groups[0];
  int kind = int( g.below( 13 ) ); c.note( "inconsistency ", kind );
  auto refuse = [&] ( auto f, const char* what ) { c.require( throws( f ), what, " is accepted" ); };
  switch ( kind ) {
    case 0: { Part p = s.pairs[0].b; p.mass = -g.logreal( 1e-10, 300. ); refuse( [&] { particle( p ); }, "a negative mass" ); break; }
    case 1: { Part p = s.pairs[0].b; p.Z = -1 - int( g.below( 90 ) ); refuse( [&] { particle( p ); }, "a negative charge" ); break; }
    case 2: { Reso r; r.E = 1.; r.el = 0.; std::size_t n = gr.ch.size(); std::size_t m = g.boolean() or n == 0 ? n + 1 + g.below( 3 ) : g.below( n ); r.w.assign( m, 1. ); gr.res.insert( gr.res.begin() + long( g.below( gr.res.size() + 1 ) ), r );
      refuse( [&] { table( s, gr ); }, "a resonance with another number of widths" ); break; }
    case 3: { if ( gr.ch.size() < 2 ) throw pbt::Skip{}; Group o2 = gr; std::size_t i = g.below( gr.ch.size() ), j = ( i + 1 ) % gr.ch.size(); std::swap( o2.ch[i], o2.ch[j] );
      refuse( [&] { rm::SpinGroup< rm::ReichMoore, B >( channels( s, o2 ), table( s, gr ) ); }, "a table with the channels in another order" ); break; }
    case 4: { Group o2 = gr; Chan k = gr.ch[ g.below( gr.ch.size() ) ]; k.s2 = 60; o2.ch.insert( o2.ch.begin() + long( g.below( gr.ch.size() + 1 ) ), k );
      refuse( [&] { rm::SpinGroup< rm::ReichMoore, B >( channels( s, o2 ), table( s, gr ) ); }, "a table with fewer channels" ); 
      refuse( [&] { for ( auto& r : o2.res ) r.w.push_back( 0. ); rm::SpinGroup< rm::ReichMoore, B >( channels( s, gr ), table( s, o2 ) ); }, "a table with more channels" ); break; }
    case 5: { Group o2 = gr; std::size_t i = g.below( gr.ch.size() ); o2.ch.insert( o2.ch.begin() + long( g.below( gr.ch.size() + 1 ) ), gr.ch[i] ); for ( auto& r : o2.res ) r.w.push_back( 0.5 );
      refuse( [&] { group< B >( s, o2 ); }, "a duplicate channel" ); break; }
    case 6: case 7: { Group o2 = gr, o3 = gr; if ( kind == 6 ) o3.J2 += 2 * ( 1 + int( g.below( 3 ) ) ); else o3.parity = -o3.parity;
      Chan k = gr.ch[ g.below( gr.ch.size() ) ]; k.s2 = 60; auto ch = channels( s, gr ); std::size_t at = 1 + g.below( ch.size() );
      ch.insert( ch.begin() + long( at ), channel( s, o3, k ) );
      std::vector< std::string > ids; for ( auto& x : ch ) ids.push_back( std::visit( [] ( auto& y ) { return y.channelID(); }, x ) );
      refuse( [&] { rm::SpinGroup< rm::ReichMoore, B >( std::move( ch ), rm::ResonanceTable( std::move( ids ), {} ) ); }, kind == 6 ? "a channel with another J" : "a channel with another parity" ); break; }
    case 8: { for ( auto& k : gr.ch ) if ( k.pair == 0 ) { k.pair = 1; k.s2 += 20; } refuse( [&] { group< B >( s, gr ); }, "a spin group without incident channel" ); break; }
    case 9: { System o2 = s; o2.pairs[0] = s.pairs[4]; Chan k = gr.ch[0]; k.s2 = 60; auto ch = channels( s, gr ); ch.insert( ch.begin() + long( g.below( ch.size() + 1 ) ), channel( o2, gr, k ) );
      std::vector< std::string > ids; for ( auto& x : ch ) ids.push_back( std::visit( [] ( auto& y ) { return y.channelID(); }, x ) );
      refuse( [&] { rm::SpinGroup< rm::ReichMoore, B >( std::move( ch ), rm::ResonanceTable( std::move( ids ), {} ) ); }, "channels with different incident particle pairs" ); break; }
    case 10: { System o2 = s; Group again = s.groups[ g.below( s.groups.size() ) ]; if ( g.boolean() ) again.res.clear(); for ( auto& k : again.ch ) k.rF = 0.3; o2.groups.insert( o2.groups.begin() + long( g.below( s.groups.size() + 1 ) ), again );
      refuse( [&] { compound< B >( o2 ); }, "a second spin group with the same J and parity" ); break; }
    case 11: { refuse( [&] { rm::CompoundSystem< rm::ReichMoore, B >( std::vector< rm::SpinGroup< rm::ReichMoore, B > >{} ); }, "a system without spin groups" );
      refuse( [&] { rm::SpinGroup< rm::ReichMoore, B >( std::vector< rm::ParticleChannel >{}, rm::ResonanceTable( {}, {} ) ); }, "a spin group without channels" );
      refuse( [&] { rm::SpinGroup< rm::ReichMoore, B > sg( std::vector< rm::ParticleChannelData >{} ); }, "a spin group without channel data" );
      std::vector< Energy > e( g.below( 4 ) ); std::vector< ReducedWidth > w( e.size() + 1 + g.below( 2 ) ); bool flip = g.boolean();
      refuse( [&] { if ( flip ) { std::vector< Energy > e2( w.size() ); std::vector< ReducedWidth > w2( e.size() ); rm::ParticleChannelData( channel( s, gr, gr.ch[0] ), std::move( e2 ), std::move( w2 ) ); }
                    else rm::ParticleChannelData( channel( s, gr, gr.ch[0] ), std::move( e ), std::move( w ) ); }, "channel data with different numbers of energies and widths" ); break; }
    default: { std::vector< rm::ParticleChannelData > data; data.emplace_back( channel( s, gr, gr.ch[0] ), std::vector< Energy >{}, std::vector< ReducedWidth >{} );
      if ( gr.ch[0].pair != 0 ) throw pbt::Skip{};
      for ( int i = 0; i < 2; ++i ) { Chan k = gr.ch[0]; k.type = photon; k.pair = 3; k.other = "eliminated" + std::to_string( i ); data.insert( data.begin() + long( g.below( data.size() + 1 ) ), rm::ParticleChannelData( channel( s, gr, k ), std::vector< Energy >{}, std::vector< ReducedWidth >{}, true ) ); }
      refuse( [&] { rm::SpinGroup< rm::ReichMoore, B > sg( std::move( data ) ); }, "two eliminated channels in a spin group" ); break; }
  }
}

#include "symmetry.hpp"
int main( int argc, char** argv ) { return pbt::main( argc, argv ); }
