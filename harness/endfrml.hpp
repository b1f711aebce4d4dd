// R-matrix limited data (LRF=7), and what holds for every kind of range.
struct Rml { System s; std::vector< int > order; int shf = 0, ifg = 0; double mn = 0; std::vector< int > eliminated; std::vector< std::vector< std::vector< double > > > gam; bool capture = false; };
static const int reactions[7] = { 2, 51, 52, 102, 600, 800, 18 };
static R penetrabilityAt( const System& s, const Group& gr, const Chan& c, double E ) {
  if ( c.type == neutron ) return hardsphere::PS( c.l, k( s, c, E ) * R( c.rP ) ).P; if ( c.type == charged ) return channelOf< rm::ChargedParticle >( s, gr, c ).penetrability( eV( E ) ); return 1; }
static Rml rml( pbt::Src& g, double& E ) {
  Rml x; x.s = pairs( g, false ); x.mn = g.chance( 30 ) ? g.real( 1., 1.02 ) : 1.00866491582;
  for ( auto& p : x.s.pairs ) { p.a.mass = p.a.mass / 1.00866491582 * x.mn; p.b.mass *= x.mn; }
  // which particle pairs there are, and in which order
  std::vector< int > have = { 0 }; x.capture = not g.chance( 15 ); if ( x.capture ) have.push_back( 3 ); for ( int p : { 1, 2, 4, 5, 6 } ) if ( g.chance( p == 4 or p == 5 ? 30 : 50 ) ) have.push_back( p );
  for ( std::size_t i = have.size(); i > 1; --i ) std::swap( have[i-1], have[ g.below( i ) ] ); x.order = have;
  Options o; o.E = E; o.q = qvalues( g, x.s, E ); o.capture = x.capture; o.maxResonances = 5; x.shf = int( g.below( 2 ) ); x.ifg = int( g.below( 2 ) );
  auto add = [&] ( int J2, int parity, std::set< std::string >& used, std::set< double >& energies ) {
    Group raw = spinGroup( g, x.s, J2, parity, o ), gr; gr.J2 = J2; gr.parity = parity; std::vector< std::size_t > kept;
    for ( std::size_t i = 0; i < raw.ch.size(); ++i ) { Chan c = raw.ch[i]; c.other = ""; c.rS = c.rP; if ( c.type == photon or not std::count( have.begin(), have.end(), c.pair ) ) continue;
      if ( used.insert( channelId( x.s, gr, c ) ).second ) { gr.ch.push_back( c ); kept.push_back( i ); } }
    bool in = false; for ( auto& c : gr.ch ) in = in or c.pair == 0; if ( not in ) return;
    for ( auto& r : raw.res ) { Reso y; y.E = r.E; y.el = r.el; for ( std::size_t i : kept ) y.w.push_back( r.w[i] ); if ( energies.insert( y.E ).second ) gr.res.push_back( y ); }
    // the widths in the file
    std::vector< std::vector< double > > gam; int el = x.capture and not g.chance( 10 ) ? int( g.below( gr.ch.size() + 1 ) ) : -1; 
    for ( auto& y : gr.res ) { std::vector< double > row; if ( el < 0 ) y.el = 0.; if ( y.E == E and y.el == 0. ) throw pbt::Skip{};
      for ( std::size_t i = 0; i < gr.ch.size(); ++i ) { if ( x.ifg ) { row.push_back( y.w[i] ); continue; }
        const Chan& c = gr.ch[i]; R P = 1; if ( c.type == neutron or c.type == charged ) { R a = available( x.s, c, y.E ); if ( std::fabs( a ) < 1e-2L * ( std::fabs( R( y.E ) ) + std::fabs( R( c.q ) ) ) ) y.w[i] = 0.; else P = penetrabilityAt( x.s, gr, c, y.E ); }
        if ( not ( P > 1e-200L ) or not std::isfinite( double( P ) ) ) y.w[i] = 0.;
        double w = y.w[i] == 0. ? 0. : double( ( y.w[i] < 0 ? -1 : 1 ) * 2 * R( y.w[i] ) * R( y.w[i] ) * P ); row.push_back( w ); }
      if ( el >= 0 ) row.insert( row.begin() + el, x.ifg ? y.el : ( y.el < 0 ? -1 : 1 ) * 2 * y.el * y.el ); gam.push_back( row ); }
    x.s.groups.push_back( gr ); x.eliminated.push_back( el ); x.gam.push_back( gam ); };
  int n = int( g.integer( 1, 3 ) ), odd = int( g.below( 2 ) ); std::set< std::pair< int, int > > jpi;
  for ( int i = 0; i < n; ++i ) { int J2 = 2 * int( g.below( 4 ) ) + odd, parity = g.boolean() ? 1 : -1; if ( not jpi.insert( { J2, parity } ).second ) continue;
    std::set< std::string > used; std::set< double > energies; add( J2, parity, used, energies ); if ( g.chance( 25 ) ) add( J2, parity, used, energies ); } // a second group of the same spin and parity
  if ( x.s.groups.empty() ) throw pbt::Skip{};
  return x;
}
static endf::ResonanceRange rangeOf( pbt::Src& g, const Rml& x, double el, double eh ) {
  S::RMatrixLimited m; m.IFG_ = x.ifg; m.KRM_ = 3; m.KRL_ = 0; auto& p = m.pairs_; std::map< int, int > number; double q[7] = { 0 };
  for ( auto& gr : x.s.groups ) for ( auto& c : gr.ch ) q[c.pair] = c.q;
  for ( int i : x.order ) { number[i] = int( number.size() ) + 1; const Pair& y = x.s.pairs[i]; auto spin = [] ( const Part& a ) { return a.parity < 0 ? -a.spin2 / 2. : a.spin2 / 2.; };
    p.MA_.push_back( y.a.mass / x.mn ); p.MB_.push_back( y.b.mass / x.mn ); p.ZA_.push_back( y.a.Z ); p.ZB_.push_back( y.b.Z ); p.IA_.push_back( spin( y.a ) ); p.IB_.push_back( spin( y.b ) ); p.Q_.push_back( q[i] );
    p.PA_.push_back( y.a.spin2 ? 0 : y.a.parity ); p.PB_.push_back( y.b.spin2 ? 0 : y.b.parity ); bool no = i == 3 or i == 6; p.PNT_.push_back( no ? 0 : 1 ); p.SHF_.push_back( no ? 0 : x.shf ); p.MT_.push_back( reactions[i] ); }
  for ( std::size_t n = 0; n < x.s.groups.size(); ++n ) { const Group& gr = x.s.groups[n]; S::RMatrixLimited::SpinGroup e; auto& c = e.channels_; c.AJ_ = gr.parity * gr.J2 / 2.; c.PJ_ = gr.J2 ? 0 : gr.parity;
    for ( std::size_t i = 0; i <= gr.ch.size(); ++i ) {
      if ( int( i ) == x.eliminated[n] ) { c.PPI_.push_back( number[3] ); c.L_.push_back( unsigned( g.below( 3 ) ) ); c.SCH_.push_back( g.below( 3 ) / 2. ); c.BND_.push_back( 0 ); c.APE_.push_back( 0 ); c.APT_.push_back( 0 ); }
      if ( i == gr.ch.size() ) break; const Chan& k = gr.ch[i];
      c.PPI_.push_back( number[k.pair] ); c.L_.push_back( unsigned( k.l ) ); c.SCH_.push_back( k.s2 / 2. ); c.BND_.push_back( k.B ); c.APE_.push_back( k.rF ); c.APT_.push_back( k.rP ); }
    for ( std::size_t i = 0; i < gr.res.size(); ++i ) { e.parameters_.ER_.push_back( gr.res[i].E ); e.parameters_.GAM_.push_back( x.gam[n][i] ); }
    m.groups_.push_back( e ); }
  return endf::ResonanceRange{ el, eh, 1, 7, 0, int( g.below( 2 ) ), std::nullopt, S::Parameters( m ) }; }
// without the channels that have no width anywhere (other than the incident ones)
static Group effective( const Group& gr ) {
  Group out; out.J2 = gr.J2; out.parity = gr.parity; std::vector< std::size_t > kept;
  for ( std::size_t i = 0; i < gr.ch.size(); ++i ) { bool any = gr.ch[i].pair == 0; for ( auto& r : gr.res ) any = any or r.w[i] != 0.; if ( any ) { kept.push_back( i ); out.ch.push_back( gr.ch[i] ); } }
  for ( auto& r : gr.res ) { Reso y; y.E = r.E; y.el = r.el; for ( std::size_t i : kept ) y.w.push_back( r.w[i] ); out.res.push_back( y ); } return out; }
static bool expectedRml( const Rml& x, double E, Expected& want ) {
  System s = x.s; s.groups.clear(); for ( auto& gr : x.s.groups ) s.groups.push_back( effective( gr ) ); if ( doubtful( s, E ) ) return false;
  for ( auto& gr : s.groups ) if ( not expected( s, gr, E, x.shf == 0, want ) ) return false; return true; }
static void describe( pbt::Case& c, const Rml& x, double E ) {
  if ( not c.verbose ) return; std::string o; for ( int i : x.order ) o += " " + std::to_string( reactions[i] ); c.note( "pairs", o, " SHF ", x.shf, " IFG ", x.ifg, " neutron mass ", x.mn ); gen::describe( c, x.s, E );
  for ( std::size_t n = 0; n < x.gam.size(); ++n ) for ( auto& row : x.gam[n] ) { std::string w; for ( double v : row ) w += " " + pbt::num( v ); c.note( "group ", n, " capture at ", x.eliminated[n], " in the file", w ); } }
FACET( "C21", "cross sections", 300000, 5000000,
       "any subset and order of elastic, two inelastic, capture, proton, alpha and fission pairs (open, closed, near threshold); 1-3 spins and parities, also in two groups each; 1-6 channels with the capture channel anywhere or absent; 0-5 resonances; widths and reduced widths; both shift factor flags; non-trivial: a resonance and several channels in a group" ) {
  double E = g.logreal( 1e-3, 2e6 ); Rml x = rml( g, E ); describe( c, x, E );
  for ( auto& gr : x.s.groups ) { c.nontrivial( gr.res.size() > 0 and gr.ch.size() > 1 ); if ( gr.ch.size() + 1 > x.order.size() ) c.label( "more channels than pairs" ); for ( auto& k : gr.ch ) if ( k.type == charged ) c.label( "charged particle" ); } if ( x.ifg == 0 ) c.label( "widths" ); if ( not x.capture ) c.label( "no capture pair" );
  Expected want; if ( not expectedRml( x, E, want ) ) throw pbt::Skip{};
  auto rec = reconstructor( rangeOf( g, x, 1e-5, 2e7 ), x.mn, x.s.pairs[0].b.id ); c.require( rec.isResolved() and not rec.isUnresolved(), "not resolved" ); compare( c, evaluate( g, c, rec, E ), want, "cross sections" );
}

// ------------------------------------------------------------------------------------ every kind of range
struct Any { endf::ResonanceRange range; double mn; std::string target; std::vector< double > energies; std::string kind; std::vector< std::pair< double, double > > poles; };
static Any any( pbt::Src& g, pbt::Case& c, double E, bool unresolvedToo ) {
  switch ( g.below( unresolvedToo ? 5 : 4 ) ) {
    case 0: { Data d = endfgen::data( g, E, 3, 4, true, true ); endfgen::describe( c, d, E ); Any a{ endfgen::reichMoore( d ), d.mn, target( d ), {}, "Reich-Moore" }; for ( auto& v : d.l ) for ( auto& r : v.res ) a.energies.push_back( r.E ); return a; }
    case 1: { Rml x = rml( g, E ); describe( c, x, E ); Any a{ rangeOf( g, x, 1e-5, 2e7 ), x.mn, x.s.pairs[0].b.id, {}, "R-matrix limited" }; for ( std::size_t n = 0; n < x.s.groups.size(); ++n ) for ( std::size_t i = 0; i < x.gam[n].size(); ++i ) for ( double w : x.gam[n][i] ) if ( w != 0. ) { a.energies.push_back( x.s.groups[n].res[i].E ); break; } for ( auto& gr : x.s.groups ) for ( auto& r : gr.res ) if ( r.el == 0. ) { double size = std::fabs( r.E ); for ( double w : r.w ) size += w * w; a.poles.push_back( { r.E, size } ); } return a; }
    case 2: case 3: { bool multi = g.boolean(); Data d = endfgen::data( g, E, 3, 4, false, true ); endfgen::describe( c, d, E ); Any a{ endfgen::breitWigner( d, multi ), d.mn, target( d ), {}, multi ? "multi-level" : "single-level" }; for ( auto& v : d.l ) for ( auto& r : v.res ) a.energies.push_back( r.E ); return a; }
    default: { Unres x = unresolved( g ); describe( c, x, E ); Any a{ rangeOf( x ), x.d.mn, target( x.d ), {}, "unresolved" }; for ( auto& y : x.u.groups ) a.energies.insert( a.energies.end(), y.E.begin(), y.E.end() ); return a; } } }
FACET( "C24", "energy range", 360000, 4000000,
       "every kind of range with bounds anywhere (at a resonance, one representable number from the energy, empty of resonances), energies inside, at, next to and far outside the bounds; non-trivial: the bounds exclude something" ) {
  double E = g.logreal( 1e-2, 1e6 ); Any a = any( g, c, E, true ); c.label( a.kind == "unresolved" ? "unresolved" : a.kind == "R-matrix limited" ? "R-matrix limited" : "other resolved" ); bool ur = a.kind == "unresolved"; double lo = a.range.EL_, hi = a.range.EH_; auto wide = a.range;
  auto bound = [&] { return not a.energies.empty() and g.chance( 40 ) ? std::fabs( g.pick( a.energies ) ) : g.chance( 30 ) ? E : E * g.logreal( 1e-2, 1e2 ); };
  if ( not ur ) { lo = bound(); hi = bound(); if ( lo > hi ) std::swap( lo, hi ); if ( lo == 0. ) lo = 1e-5; if ( lo == hi ) hi = 2 * lo; a.range.EL_ = lo; a.range.EH_ = hi; } c.note( "from ", lo, " to ", hi );
  auto rec = reconstructor( a.range, a.mn, a.target ); c.require( rec.lowerEnergy().value == lo and rec.upperEnergy().value == hi, "the bounds are ", rec.lowerEnergy().value, " and ", rec.upperEnergy().value ); c.require( rec.isUnresolved() == ur and rec.isResolved() == not ur, "resolved or not" );
  double in = g.chance( 20 ) ? lo : g.chance( 20 ) ? hi : std::min( hi, std::max( lo, lo + ( hi - lo ) * g.real( 0., 1. ) ) ), below = g.boolean() ? std::nextafter( lo, 0. ) : lo * g.real( 0., 0.999 ), above = g.boolean() ? std::nextafter( hi, 1e300 ) : hi * g.logreal( 1.001, 1e3 );
  c.require( rec( eV( below ) ).empty(), "a cross section at ", below, " below the range" ); c.require( rec( eV( above ) ).empty(), "a cross section at ", above, " above the range" );
  c.nontrivial(); auto grid = rec.grid(); for ( std::size_t i = 0; i < grid.size(); ++i ) { c.require( grid[i].value >= lo and grid[i].value <= hi, "the grid has ", grid[i].value, " outside the range" ); c.require( i == 0 or grid[i].value > grid[i-1].value, "the grid is not ascending" ); }
  for ( double e : a.energies ) if ( e >= lo and e <= hi ) c.require( std::count_if( grid.begin(), grid.end(), [&] ( auto& y ) { return y.value == e; } ) == 1, "the energy ", e, " is not in the grid" );
  auto got = rec( eV( in ) ); c.require( not got.empty(), "no cross section at ", in, " in the range" );
  if ( ur ) return;
  // the bounds select, they do not change anything
  auto all = reconstructor( wide, a.mn, a.target ); if ( in < wide.EL_ or in > wide.EH_ ) return; auto want = all( eV( in ) ); c.require( want.size() == got.size(), "the reactions depend on the bounds" );
  for ( auto& w : want ) { double x = got[w.first].value; c.require( x == w.second.value or ( x != x and w.second.value != w.second.value ), "the bounds change ", w.first.symbol() ); }
  std::vector< double > expect; for ( auto& e : all.grid() ) if ( e.value >= std::max( lo, wide.EL_ ) and e.value <= std::min( hi, wide.EH_ ) ) expect.push_back( e.value ); std::vector< double > have; for ( auto& e : grid ) if ( e.value >= wide.EL_ and e.value <= wide.EH_ ) have.push_back( e.value ); c.require( have == expect, "the bounds change the grid" );
}
FACET( "C24", "refusal", 180000, 2000000, "otherwise valid ranges with an unsupported type, representation or formalism, other data than announced, an unknown radius option or interpolation law, or an impossible J; non-trivial: every case" ) {
  double E = g.logreal( 1e-2, 1e6 ); c.nontrivial(); int kind = int( g.below( 6 ) ); const char* what = "";
  Any a = any( g, c, E, kind == 3 ); auto& r = a.range; auto* m = std::get_if< S::RMatrixLimited >( &r.parameters_ );
  switch ( kind ) {
    case 0: if ( m and g.boolean() ) { m->KRM_ = g.pick( { 0, 1, 2, 4, 5, -3 } ); what = "formalism"; } else { r.LRF_ = g.pick( { 0, 4, 5, 6, 8, -1 } ); what = "representation"; } break;
    case 1: r.LRU_ = g.pick( { 0, 3, -1 } ); if ( g.boolean() ) r.parameters_ = S::SpecialCase{ 0.5, 0.9 }; what = "type"; break;
    case 2: { int now = r.LRF_, other = g.pick( { 1, 2, 3, 7 } ); if ( other == now ) throw pbt::Skip{}; r.LRF_ = other; what = "announced data"; break; }
    case 3: if ( m ) throw pbt::Skip{}; r.NRO_ = 1; r.NAPS_ = g.pick( { 3, 4, -1, 10 } ); r.radius_ = S::ScatteringRadius( { 2 }, { 2 }, { 1e-5, 2e7 }, { 0.5, 0.6 } ); what = "radius option"; break;
    case 4: if ( m ) throw pbt::Skip{}; r.NRO_ = 1; r.NAPS_ = int( g.below( 3 ) ); r.radius_ = S::ScatteringRadius( { 2 }, { g.pick( { 0L, 6L, 11L, -1L } ) }, { 1e-5, 2e7 }, { 0.5, 0.6 } ); what = "interpolation law"; break;
    default: { Data d = endfgen::data( g, E, 3, 4, true, true ); bool rmoore = g.boolean(); std::vector< Rs* > rs; for ( auto& v : d.l ) { v.lrx = 0; v.qx = 0; for ( auto& x : v.res ) rs.push_back( &x ); } if ( rs.empty() ) throw pbt::Skip{}; Rs* one = rs[ g.below( rs.size() ) ];
      if ( not rmoore ) for ( auto& v : d.l ) { if ( v.res.empty() ) throw pbt::Skip{}; for ( auto& x : v.res ) { x.gf = std::fabs( x.gf ); x.J = std::fabs( x.J ); } }
      one->J = g.boolean() ? std::fabs( one->J ) + 0.5 : d.I2 / 2. + 5.5 + double( g.below( 3 ) ); r = rmoore ? endfgen::reichMoore( d ) : endfgen::breitWigner( d, g.boolean() ); a.mn = d.mn; a.target = target( d ); what = "total angular momentum"; } }
  c.note( "invalid ", what ); c.require( throws( [&] { reconstructor( r, a.mn, a.target ); } ), "an invalid ", what, " was accepted" );
}
