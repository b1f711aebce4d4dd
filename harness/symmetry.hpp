// Symmetries of the collision matrix that need no reference value (C30). The reference model only says how
// sensitive a cross section is to the rounding of the transformed input.
struct Evaluated { Sigma sigma; Expected want; };
static bool evaluated( const System& s, double E, bool shift, Evaluated& out ) {
  try { for ( auto& gr : s.groups ) if ( not expected( s, gr, E, shift, out.want ) ) return false; } catch ( const std::exception& ) { return false; }
  if ( shift ) compound< rm::ShiftFactor >( s ).evaluate( eV( E ), out.sigma ); else compound< rm::Constant >( s ).evaluate( eV( E ), out.sigma ); return true; }
// relative: the largest sensitivity that is still worth comparing
static void related( pbt::Case& c, Evaluated& a, const std::string& ida, double fa, Evaluated& b, const std::string& idb, double fb, double relative, const char* what ) {
  auto p = a.sigma.find( rm::ReactionID( ida ) ), q = b.sigma.find( rm::ReactionID( idb ) ); c.require( p != a.sigma.end(), what, ": no cross section for ", ida ); c.require( q != b.sigma.end(), what, ": no cross section for ", idb );
  double x = p->second.value * fa, y = q->second.value * fb, wx = double( a.want.sigma[ida] ) * fa, wy = double( b.want.sigma[idb] ) * fb, e = double( a.want.error[ida] ) * fa + double( b.want.error[idb] ) * fb, d = std::fabs( wx - wy ); if ( not std::isfinite( d + e ) ) { c.label( "exactly on a resonance after rounding" ); return; }
  double size = std::max( { std::fabs( x ), std::fabs( y ), std::fabs( wx ), std::fabs( wy ) } ); if ( d > relative * std::max( std::fabs( wx ), std::fabs( wy ) ) + 2 * e ) { c.label( "too sensitive" ); return; }
  c.label( e > 1e-3 * size ? "compared within the rounding" : "compared" ); c.close( x, y, 1e-11, 4 * e + 3 * d, what ); }
static System swapped( const System& s, int b, const std::vector< double >& q, double lambda, double ra, double rb ) { // pair b becomes the incident pair
  System t = s; std::swap( t.pairs[0], t.pairs[ std::size_t( b ) ] );
  for ( auto& gr : t.groups ) { for ( auto& k : gr.ch ) { double own = k.pair == 0 ? 0. : q[ std::size_t( k.pair ) ]; k.q = k.pair == b ? 0. : own - q[ std::size_t( b ) ]; k.pair = k.pair == 0 ? b : k.pair == b ? 0 : k.pair; }
    for ( auto& r : gr.res ) { r.E = ( r.E * ra + q[ std::size_t( b ) ] ) / rb; for ( auto& w : r.w ) w *= std::sqrt( lambda ); r.el *= std::sqrt( lambda ); } }
  return t; }
FACET( "C30", "detailed balance", 120000, 2000000,
       "the same compound system entered through another open channel at the energy that corresponds: k^2 (2i+1)(2I+1) sigma is the same both ways, neutron, proton and alpha channels; non-trivial: several resonances in a group" ) {
  Options o; bool charges = g.chance( 30 ); o.uncharged = not charges; System s = pairs( g, charges and g.chance( 30 ) ); o.E = charges ? g.logreal( 1e4, 1e7 ) : energy( g ); o.q = qvalues( g, s, o.E ); std::vector< int > massive; for ( int i : { 1, 2, 4, 5 } ) if ( charges or typeOf( s, i ) == neutron ) massive.push_back( i );
  int b = g.pick( massive ); double ra = double( ratio( s.pairs[0] ) ), rb = double( ratio( s.pairs[ std::size_t( b ) ] ) ), cm = o.E * ra; if ( cm + o.q[ std::size_t( b ) ] < 1e-3 * cm ) o.q[ std::size_t( b ) ] = -cm * g.real( 0., 0.99 );
  double E2 = ( cm + o.q[ std::size_t( b ) ] ) / rb, lambda = ra / rb; int n = int( g.integer( 1, 3 ) ), odd = int( g.below( 2 ) ); std::set< std::pair< int, int > > used; bool several = false;
  for ( int i = 0; i < n; ++i ) { int J2 = 2 * int( g.below( 5 ) ) + odd, parity = g.boolean() ? 1 : -1; if ( not used.insert( { J2, parity } ).second ) continue; Group gr = spinGroup( g, s, J2, parity, o ); bool has = false; for ( auto& k : gr.ch ) has = has or k.pair == b;
    if ( not has ) { gr.ch.push_back( channelFor( g, s, b, o ) ); for ( auto& r : gr.res ) r.w.push_back( g.logreal( 1e-3, 10. ) ); } several = several or gr.res.size() > 1; s.groups.push_back( gr ); }
  describe( c, s, o.E ); c.note( "incident pairs 0 at ", o.E, " and ", b, " at ", E2 ); c.nontrivial( several ); if ( charges ) c.label( "charged particles" );
  System t = swapped( s, b, o.q, lambda, ra, rb ); if ( doubtful( s, o.E ) or doubtful( t, E2 ) ) throw pbt::Skip{}; bool shift = g.boolean(); Evaluated x, y; if ( not evaluated( s, o.E, shift, x ) or not evaluated( t, E2, shift, y ) ) throw pbt::Skip{};
  auto wave = [&] ( const System& z, double E ) { for ( auto& k : z.groups[0].ch ) if ( k.pair == 0 ) return std::visit( [&] ( const auto& ch ) { return ch.waveNumber( eV( E ) ).value; }, channel( z, z.groups[0], k ) ); throw pbt::Skip{}; };
  auto weight = [&] ( const System& z, double E ) { double kk = wave( z, E ) * 1e-14; return kk * kk * ( z.pairs[0].a.spin2 + 1 ) * ( z.pairs[0].b.spin2 + 1 ); };
  std::string pa = pairId( s.pairs[0] ), pb = pairId( t.pairs[0] ); related( c, x, pa + "->" + pb, weight( s, o.E ), y, pb + "->" + pa, weight( t, E2 ), charges ? 1e-2 : 1e-7, "detailed balance" );
}
FACET( "C30", "equal channels can be mixed", 120000, 2000000,
       "two channels of the same reaction with the same L function (fission or photon channels; neutron channels with other channel spins) are mixed by any rotation of their reduced widths, the same for every resonance: no cross section changes; non-trivial: several resonances" ) {
  Options o; o.uncharged = not g.chance( 15 ); System s = system( g, o, 1, false ); Group& gr = s.groups[0]; std::size_t i = g.below( gr.ch.size() ); Chan twin = gr.ch[i]; int extra = int( g.integer( 1, 2 ) ); std::vector< std::size_t > same = { i };
  std::set< std::string > used; for ( auto& k : gr.ch ) used.insert( channelId( s, gr, k ) );
  for ( int k = 0; k < extra; ++k ) { Chan d = twin; if ( d.type == fission ) d.other = "other" + std::to_string( k ); else d.s2 = 8 + k; if ( not used.insert( channelId( s, gr, d ) ).second ) continue; same.push_back( gr.ch.size() ); gr.ch.push_back( d ); for ( auto& r : gr.res ) r.w.push_back( g.chance( 20 ) ? 0. : g.logreal( 1e-3, 20. ) * ( g.boolean() ? -1 : 1 ) ); }
  if ( same.size() < 2 ) throw pbt::Skip{}; System t = s; Group& h = t.groups[0];
  for ( std::size_t k = 1; k < same.size(); ++k ) { double a = g.chance( 15 ) ? std::acos( -1. ) / 2 : g.real( 0., 6.3 ); for ( auto& r : h.res ) { double x = r.w[ same[k-1] ], y = r.w[ same[k] ]; r.w[ same[k-1] ] = std::cos( a ) * x - std::sin( a ) * y; r.w[ same[k] ] = std::sin( a ) * x + std::cos( a ) * y; } }
  describe( c, s, o.E ); describe( c, t, o.E ); c.nontrivial( gr.res.size() > 1 ); c.label( twin.type == neutron ? "neutron" : twin.type == photon ? "photon" : twin.type == fission ? "fission" : "charged" ); if ( doubtful( s, o.E ) ) throw pbt::Skip{};
  bool shift = g.boolean(); Evaluated x, y; if ( not evaluated( s, o.E, shift, x ) or not evaluated( t, o.E, shift, y ) ) throw pbt::Skip{};
  for ( auto& w : x.want.sigma ) related( c, x, w.first, 1., y, w.first, 1., 1e-7, w.first.c_str() );
}
FACET( "C30", "one resonance: capture eliminated or explicit", 80000, 1500000,
       "for a single resonance an eliminated width is exactly the same as a photon channel with that width: every cross section is the same and the explicit channel takes the place of the capture; non-trivial: several channels" ) {
  Options o; o.uncharged = not g.chance( 15 ); System s = system( g, o, 1, false ); Group& gr = s.groups[0]; if ( gr.res.empty() ) throw pbt::Skip{}; gr.res.resize( 1 ); Reso& r = gr.res[0]; if ( r.el == 0. ) r.el = g.logreal( 1e-3, 1. );
  if ( r.E == o.E ) throw pbt::Skip{}; for ( std::size_t i = gr.ch.size(); i-- > 0; ) if ( gr.ch[i].type == photon ) { gr.ch.erase( gr.ch.begin() + long( i ) ); r.w.erase( r.w.begin() + long( i ) ); } if ( gr.ch.empty() ) throw pbt::Skip{};
  bool shift = g.boolean(); System t = s; Group& h = t.groups[0]; Chan ph = channelFor( g, s, 3, o ); ph.B = 0.; ph.q = g.logreal( 1e3, 1e7 ); std::size_t at = g.below( h.ch.size() + 1 ); h.ch.insert( h.ch.begin() + long( at ), ph ); h.res[0].w.insert( h.res[0].w.begin() + long( at ), h.res[0].el ); h.res[0].el = 0.;
  describe( c, s, o.E ); describe( c, t, o.E ); c.nontrivial( gr.ch.size() > 1 ); if ( doubtful( s, o.E ) ) throw pbt::Skip{}; Evaluated x, y; if ( not evaluated( s, o.E, shift, x ) or not evaluated( t, o.E, shift, y ) ) throw pbt::Skip{};
  for ( auto& w : x.want.sigma ) related( c, x, w.first, 1., y, w.first == captureId( s ) ? reactionId( t, ph ) : w.first, 1., 1e-7, w.first.c_str() );
}
FACET( "C30", "moving every channel phase", 80000, 1500000,
       "the reactions other than elastic do not depend on the phase shifts: other radii for the phase change no cross section of another reaction, and not the capture; non-trivial: several channels" ) {
  Options o; o.uncharged = true; System s = system( g, o, 1, false ); Group& gr = s.groups[0]; System t = s; for ( auto& k : t.groups[0].ch ) { if ( k.rS == k.rF and k.rS == k.rP ) k.rS = k.rP; k.rF = radius( g ); }
  describe( c, s, o.E ); describe( c, t, o.E ); c.nontrivial( gr.ch.size() > 1 and not gr.res.empty() ); if ( doubtful( s, o.E ) ) throw pbt::Skip{}; bool shift = g.boolean(); Evaluated x, y; if ( not evaluated( s, o.E, shift, x ) or not evaluated( t, o.E, shift, y ) ) throw pbt::Skip{};
  int incident = 0; for ( auto& k : gr.ch ) incident += k.pair == 0; std::string el = pairId( s.pairs[0] ) + "->" + pairId( s.pairs[0] ); for ( auto& w : x.want.sigma ) if ( w.first != el ) related( c, x, w.first, 1., y, w.first, 1., 1e-7, w.first.c_str() );
}
