// Equivalent ENDF data: the same physics written down in another way gives the same cross sections (C29).
typedef std::map< std::string, double > Bound;
static void same( pbt::Case& c, const Sigma& a, const Sigma& b, const Bound& bound, double rel, const char* what ) {
  std::set< std::string > all; for ( auto& x : a ) all.insert( x.first.symbol() ); for ( auto& x : b ) all.insert( x.first.symbol() );
  for ( auto& id : all ) { auto p = a.find( rm::ReactionID( id ) ), q = b.find( rm::ReactionID( id ) ); double x = p == a.end() ? 0. : p->second.value, y = q == b.end() ? 0. : q->second.value; auto t = bound.find( id );
    c.close( x, y, rel, 4 * ( t == bound.end() ? 0. : t->second ), what, ": ", id ); } }
static Bound boundOf( const Expected& e ) { Bound b; for ( auto& x : e.error ) b[ x.first ] = double( x.second ); return b; }
static Bound boundOf( const Data& d, const Xs& x ) { std::string p = pairId( pairOf( d ) ); return { { p + "->" + p, double( x.eEl ) }, { p + "->capture", double( x.eCap ) }, { p + "->fission", double( x.eFis ) } }; }
template< class T > static void shuffle( pbt::Src& g, std::vector< T >& v ) { for ( std::size_t i = v.size(); i > 1; --i ) std::swap( v[i-1], v[ g.below( i ) ] ); }

// Reich-Moore data (NRO=0) as R-matrix limited data
static endf::ResonanceRange asLimited( pbt::Src& g, const Data& d ) {
  S::RMatrixLimited m; m.IFG_ = 0; m.KRM_ = 3; m.KRL_ = 0; auto& p = m.pairs_; double Z = d.I2 % 2 ? 92. : 26.; bool fissile = false; for ( auto& v : d.l ) for ( auto& r : v.res ) fissile = fissile or r.gf != 0 or r.gf2 != 0;
  std::vector< int > order = { 2, 102 }; if ( fissile ) order.push_back( 18 ); shuffle( g, order ); std::map< int, int > number;
  for ( int mt : order ) { number[mt] = int( number.size() ) + 1; bool cap = mt == 102; p.MA_.push_back( cap ? 0. : 1. ); p.MB_.push_back( cap ? d.awri + 1 : d.awri ); p.ZA_.push_back( 0. ); p.ZB_.push_back( Z ); p.IA_.push_back( cap ? 1. : 0.5 ); p.IB_.push_back( cap ? 0. : d.I2 / 2. );
    p.Q_.push_back( 0. ); p.PA_.push_back( 0 ); p.PB_.push_back( cap or d.I2 == 0 ? 1 : 0 ); p.PNT_.push_back( mt == 2 ); p.SHF_.push_back( 0 ); p.MT_.push_back( mt ); }
  struct Row { double E, gg; std::map< int, double > w; }; struct G { std::vector< std::array< int, 2 > > ls; std::vector< std::array< int, 2 > > fis; std::vector< Row > rows; }; std::map< std::pair< int, int >, G > groups;
  for ( int l = 0; l < d.nlsc; ++l ) for ( int s2 = std::abs( d.I2 - 1 ); s2 <= d.I2 + 1; s2 += 2 ) for ( int J2 = std::abs( 2 * l - s2 ); J2 <= 2 * l + s2; J2 += 2 ) groups[ { J2, l % 2 ? -1 : 1 } ].ls.push_back( { l, s2 } );
  for ( auto& x : groups ) { G& gr = x.second; int J2 = x.first.first;
    for ( std::size_t i = 0; i < gr.ls.size(); ++i ) { int l = gr.ls[i][0], s2 = gr.ls[i][1], o2 = s2 == d.I2 - 1 ? d.I2 + 1 : d.I2 - 1; bool two = o2 >= 0 and J2 >= std::abs( 2 * l - o2 ) and J2 <= 2 * l + o2;
      for ( auto& v : d.l ) if ( v.l == l ) for ( auto& r : v.res ) if ( std::fabs( r.J ) == J2 / 2. and ( not two or ( r.J < 0 ) == ( s2 < d.I2 ) ) ) {
        Row row{ r.E, r.gg, {} }; row.w[ int( i ) ] = r.gn; for ( int k : { 0, 1 } ) if ( double f = k ? r.gf2 : r.gf ) row.w[ 100 + 2 * int( i ) + k ] = f; gr.rows.push_back( row ); } }
    std::vector< int > columns = { -1 }; for ( std::size_t i = 0; i < gr.ls.size(); ++i ) columns.push_back( int( i ) ); std::set< int > f; for ( auto& r : gr.rows ) for ( auto& w : r.w ) if ( w.first >= 100 ) f.insert( w.first ); for ( int k : f ) columns.push_back( k );
    shuffle( g, columns ); shuffle( g, gr.rows ); S::RMatrixLimited::SpinGroup e; auto& c = e.channels_; c.AJ_ = x.first.second * J2 / 2.; c.PJ_ = J2 ? 0 : x.first.second; int n = 0;
    for ( int k : columns ) { bool el = k >= 0 and k < 100; double apl = 0; if ( el ) for ( auto& v : d.l ) if ( v.l == gr.ls[ std::size_t( k ) ][0] ) apl = v.apl;
      c.PPI_.push_back( number[ k < 0 ? 102 : el ? 2 : 18 ] ); c.L_.push_back( el ? unsigned( gr.ls[ std::size_t( k ) ][0] ) : 0u ); c.SCH_.push_back( el ? gr.ls[ std::size_t( k ) ][1] / 2. : n++ / 2. ); c.BND_.push_back( 0. );
      c.APE_.push_back( el ? phaseRadius( d, apl, 1. ) : 0. ); c.APT_.push_back( el ? channelRadius( d, apl, 1. ) : 0. ); }
    for ( auto& r : gr.rows ) { e.parameters_.ER_.push_back( r.E ); std::vector< double > row; for ( int k : columns ) row.push_back( k < 0 ? r.gg : r.w.count( k ) ? r.w[k] : 0. ); e.parameters_.GAM_.push_back( row ); }
    m.groups_.push_back( e ); }
  shuffle( g, m.groups_ ); return endf::ResonanceRange{ d.el, d.eh, 1, 7, 0, 1, std::nullopt, S::Parameters( m ) }; }

FACET( "C29", "one s-wave resonance per J in four formalisms", 80000, 1000000,
       "single-level and multi-level Breit-Wigner, Reich-Moore and R-matrix limited are the same formula for one l = 0 resonance per J, with capture and fission; all NRO and NAPS for the first three; non-trivial: two resonances, or fission" ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 1, 1, true, true ); d.nlsc = 1; d.l.resize( 1 ); Lv& v = d.l[0]; v.l = 0; v.apl = 0.; v.lrx = 0; v.qx = 0.; v.res.clear(); bool f = g.boolean();
  for ( int J2 = std::abs( d.I2 - 1 ); J2 <= d.I2 + 1; J2 += 2 ) { if ( not v.res.empty() and g.chance( 30 ) ) continue; Rs r; r.J = J2 / 2.; r.gg = g.logreal( 1e-4, 10. ); r.gf = f and g.chance( 80 ) ? g.logreal( 1e-4, 10. ) : 0.; r.gf2 = r.gx = 0.;
    switch ( g.below( 3 ) ) { case 0: r.E = g.logreal( 1e-3, 1e6 ); break; case 1: r.E = -g.logreal( 1e-3, 1e4 ); break; default: r.E = E + ( r.gg + r.gf ) * g.real( -3., 3. ); } if ( std::fabs( r.E ) < 1e-6 or ( not v.res.empty() and v.res[0].E == r.E ) ) r.E = 1.25;
    double P = double( hardsphere::PS( 0, endfgen::waveNumber( d, r.E ) * channelRadius( d, 0., std::fabs( r.E ) ) ).P ); r.gn = P * g.logreal( 1e-6, 1e3 ); v.res.push_back( r ); }
  endfgen::describe( c, d, E ); c.nontrivial( v.res.size() > 1 or f ); Expected want; if ( not expectedRM( d, E, want ) ) throw pbt::Skip{}; Bound b = boundOf( want ); for ( bool multi : { false, true } ) for ( auto& x : boundOf( d, endfgen::expectedBW( d, E, multi ) ) ) b[ x.first ] += x.second;
  Sigma r = reconstructor( endfgen::reichMoore( d ), d.mn, target( d ) )( eV( E ) ); same( c, reconstructor( endfgen::breitWigner( d, false ), d.mn, target( d ) )( eV( E ) ), r, b, 1e-11, "single-level against Reich-Moore" );
  same( c, reconstructor( endfgen::breitWigner( d, true ), d.mn, target( d ) )( eV( E ) ), r, b, 1e-11, "multi-level against Reich-Moore" );
  if ( not d.nro ) { c.label( "R-matrix limited" ); same( c, reconstructor( asLimited( g, d ), d.mn, target( d ) )( eV( E ) ), r, b, 1e-11, "R-matrix limited against Reich-Moore" ); }
}
FACET( "C29", "Reich-Moore as R-matrix limited", 60000, 800000,
       "Reich-Moore ranges (several l, both channel spins, fission of either sign, radii per l, NAPS 0 and 1) translated to LRF=7, pairs, groups, channels and resonances in any order; non-trivial: several resonances for an l" ) {
  double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 3, 5, true, true ); if ( d.nro ) { d.nro = 0; d.naps = int( g.below( 2 ) ); } endfgen::describe( c, d, E ); c.note( "NLSC ", d.nlsc ); std::size_t most = 0; for ( auto& v : d.l ) most = std::max( most, v.res.size() ); c.nontrivial( most > 1 );
  Expected want; if ( not expectedRM( d, E, want ) ) throw pbt::Skip{}; same( c, reconstructor( asLimited( g, d ), d.mn, target( d ) )( eV( E ) ), reconstructor( endfgen::reichMoore( d ), d.mn, target( d ) )( eV( E ) ), boundOf( want ), 1e-11, "R-matrix limited against Reich-Moore" );
}
FACET( "C29", "R-matrix limited: widths or reduced widths, and order", 80000, 1000000,
       "widths against the reduced widths they stand for; pairs, groups, channels and resonances in another order; non-trivial: a resonance and several channels" ) {
  double E = g.logreal( 1e-2, 2e6 ); Rml x = rml( g, E ); describe( c, x, E ); for ( auto& gr : x.s.groups ) c.nontrivial( not gr.res.empty() and gr.ch.size() > 1 ); Expected want; if ( not expectedRml( x, E, want ) ) throw pbt::Skip{};
  Rml y = x; bool widths = g.boolean(); std::vector< std::size_t > perm( x.s.groups.size() ); for ( std::size_t i = 0; i < perm.size(); ++i ) perm[i] = i;
  if ( widths ) { if ( x.ifg ) throw pbt::Skip{}; c.label( "reduced widths" ); y.ifg = 1; for ( std::size_t n = 0; n < y.gam.size(); ++n ) for ( std::size_t i = 0; i < y.gam[n].size(); ++i ) { std::vector< double > row = y.s.groups[n].res[i].w; if ( y.eliminated[n] >= 0 ) row.insert( row.begin() + y.eliminated[n], y.s.groups[n].res[i].el ); y.gam[n][i] = row; } }
  else { c.label( "order" ); shuffle( g, y.order ); shuffle( g, perm );
    for ( std::size_t n = 0; n < perm.size(); ++n ) { std::size_t o = perm[n]; Group gr = x.s.groups[o]; auto gam = x.gam[o]; int el = x.eliminated[o]; std::vector< double > cap; if ( el >= 0 ) for ( auto& row : gam ) { cap.push_back( row[ std::size_t( el ) ] ); row.erase( row.begin() + el ); }
      std::vector< std::size_t > cs( gr.ch.size() ), rs( gr.res.size() ); for ( std::size_t i = 0; i < cs.size(); ++i ) cs[i] = i; for ( std::size_t i = 0; i < rs.size(); ++i ) rs[i] = i; shuffle( g, cs ); shuffle( g, rs ); Group out = gr; std::vector< std::vector< double > > rows( rs.size() ); if ( el >= 0 ) el = int( g.below( cs.size() + 1 ) );
      for ( std::size_t i = 0; i < cs.size(); ++i ) out.ch[i] = gr.ch[ cs[i] ];
      for ( std::size_t j = 0; j < rs.size(); ++j ) { out.res[j] = gr.res[ rs[j] ]; for ( std::size_t i = 0; i < cs.size(); ++i ) { out.res[j].w[i] = gr.res[ rs[j] ].w[ cs[i] ]; rows[j].push_back( gam[ rs[j] ][ cs[i] ] ); } if ( el >= 0 ) rows[j].insert( rows[j].begin() + el, cap[ rs[j] ] ); }
      y.s.groups[n] = out; y.gam[n] = rows; y.eliminated[n] = el; } }
  const std::string t = x.s.pairs[0].b.id; same( c, reconstructor( rangeOf( g, y, 1e-5, 2e7 ), x.mn, t )( eV( E ) ), reconstructor( rangeOf( g, x, 1e-5, 2e7 ), x.mn, t )( eV( E ) ), boundOf( want ), 1e-11, widths ? "reduced widths against widths" : "another order" );
}
static Data constantRadius( pbt::Src& g, const Data& d ) { // the same radii through another combination of NRO and NAPS
  Data t = d; double a = channelRadius( d, 0., 1. ), ap = d.ap; t.nro = 1; t.tab = endfgen::table( g, d.el ); for ( auto& y : t.tab.y ) y = ap;
  if ( a == ap and g.boolean() ) { t.naps = 1; t.ap = g.real( 0.2, 1.2 ); } else if ( d.naps == 0 and g.boolean() ) { t.naps = 0; t.ap = g.real( 0.2, 1.2 ); } else { t.naps = 2; t.ap = a; } return t; }
FACET( "C29", "constant radius as a table, or from AP", 120000, 1500000,
       "every kind of range except R-matrix limited: NRO=0 with NAPS 0 or 1 against NRO=1 with a constant table under any interpolation laws and the NAPS that means the same radii; non-trivial: every case" ) {
  int kind = int( g.below( 4 ) ); c.nontrivial(); auto label = [&] ( const Data& t ) { c.label( t.naps == 0 ? "table, NAPS=0" : t.naps == 1 ? "table, NAPS=1" : "table, NAPS=2" ); };
  if ( kind == 3 ) { Unres x = unresolved( g ); Unres y = x; x.d.nro = 0; x.d.naps = int( g.below( 2 ) ); y.d = constantRadius( g, x.d ); label( y.d ); double E = x.d.el + ( x.d.eh - x.d.el ) * g.real( 0., 1. ); if ( E > x.d.eh ) E = x.d.eh; describe( c, x, E ); describe( c, y, E );
    Sigma a = reconstructor( rangeOf( x ), x.d.mn, target( x.d ) )( eV( E ) ); double all = 0; for ( auto& s : a ) all += std::fabs( s.second.value ); Bound b; for ( auto& s : a ) b[ s.first.symbol() ] = 1e-13 * all; same( c, reconstructor( rangeOf( y ), y.d.mn, target( y.d ) )( eV( E ) ), a, b, 1e-10, "unresolved" ); return; }
  double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 3, 5, kind == 2, true ); d.nro = 0; d.naps = int( g.below( 2 ) ); for ( auto& v : d.l ) v.apl = 0.; Data t = constantRadius( g, d ); label( t ); endfgen::describe( c, d, E ); endfgen::describe( c, t, E );
  Bound b; if ( kind == 2 ) { Expected want; if ( not expectedRM( d, E, want ) or not expectedRM( t, E, want ) ) throw pbt::Skip{}; b = boundOf( want ); } else { b = boundOf( d, endfgen::expectedBW( t, E, kind == 1 ) ); for ( auto& x : boundOf( d, endfgen::expectedBW( d, E, kind == 1 ) ) ) b[ x.first ] += x.second; }
  auto make = [&] ( const Data& x ) { return reconstructor( kind == 2 ? endfgen::reichMoore( x ) : endfgen::breitWigner( x, kind == 1 ), x.mn, target( x ) ); }; same( c, make( t )( eV( E ) ), make( d )( eV( E ) ), b, 1e-10, kind == 2 ? "Reich-Moore" : kind == 1 ? "multi-level" : "single-level" );
}
FACET( "C29", "unresolved: constant parameters in three representations", 120000, 2000000,
       "average parameters that do not depend on the energy, written as LRF=1 without and with energy-dependent fission widths and as LRF=2 with any energies; non-trivial: several groups" ) {
  Unres x = unresolved( g ); if ( x.kind == 1 ) for ( auto& y : x.u.groups ) for ( auto& v : y.gf ) v = y.gf[0]; if ( x.kind == 2 ) for ( auto& y : x.u.groups ) { for ( auto* v : { &y.D, &y.g0, &y.gg, &y.gf } ) for ( auto& w : *v ) w = ( *v )[0]; for ( auto& w : y.gx ) w = 0.; }
  double E = x.d.el + ( x.d.eh - x.d.el ) * g.real( 0., 1. ); if ( E > x.d.eh ) E = x.d.eh; describe( c, x, E ); c.nontrivial( x.u.groups.size() > 1 ); bool fissile = false; for ( auto& y : x.u.groups ) fissile = fissile or y.gf[0] != 0.;
  Sigma a = reconstructor( rangeOf( x ), x.d.mn, target( x.d ) )( eV( E ) ); double all = 0; for ( auto& s : a ) all += std::fabs( s.second.value ); Bound b; for ( auto& s : a ) b[ s.first.symbol() ] = 1e-13 * all;
  for ( int kind = 0; kind < 3; ++kind ) { if ( kind == x.kind or ( kind == 0 and fissile ) ) continue; Unres z = x; z.kind = kind; c.label( fissile ? "fission" : "no fission" );
    z.es = { x.d.el, x.d.eh }; while ( g.chance( 50 ) ) z.es.push_back( x.d.el + ( x.d.eh - x.d.el ) * g.real( 0.02, 0.98 ) ); std::sort( z.es.begin(), z.es.end() ); z.es.erase( std::unique( z.es.begin(), z.es.end() ), z.es.end() );
    for ( auto& y : z.u.groups ) { y.E = kind == 0 ? std::vector< double >{ x.d.el, x.d.eh } : z.es; for ( auto* v : { &y.D, &y.g0, &y.gg, &y.gf, &y.gx } ) { double w = v->front(); v->assign( y.E.size(), w ); } if ( kind < 2 ) y.la = 0; if ( kind == 0 ) y.nu = 0; }
    describe( c, z, E ); same( c, reconstructor( rangeOf( z ), z.d.mn, target( z.d ) )( eV( E ) ), a, b, 1e-11, kind == 0 ? "energy-independent" : kind == 1 ? "energy-dependent fission widths" : "energy-dependent" ); }
}
FACET( "C29", "resonances without entrance width, and exchanged fission channels", 120000, 1500000,
       "Breit-Wigner and Reich-Moore ranges: an added resonance with neutron width 0 changes nothing, exchanging the two fission widths of all resonances changes nothing, reversing the sign of a fission column changes nothing; non-trivial: several resonances for an l" ) {
  int kind = int( g.below( 3 ) ); double E = g.logreal( 1e-3, 1e6 ); Data d = endfgen::data( g, E, 3, 5, kind == 2, true ); std::size_t most = 0; for ( auto& v : d.l ) most = std::max( most, v.res.size() ); c.nontrivial( most > 1 ); Data t = d;
  if ( kind == 2 and g.boolean() ) { c.label( "fission channels" ); int how = int( g.below( 3 ) ); for ( auto& v : t.l ) for ( auto& r : v.res ) { if ( how != 1 ) std::swap( r.gf, r.gf2 ); if ( how != 0 ) r.gf = -r.gf; } }
  else { c.label( "null resonance" ); bool any = false; std::set< double > energies; for ( auto& v : d.l ) for ( auto& r : v.res ) energies.insert( r.E );
    for ( auto& v : t.l ) if ( not v.res.empty() and g.chance( 60 ) ) { Rs r = g.pick( v.res ); r.gn = r.gf = r.gf2 = r.gx = 0.; r.gg = g.logreal( 1e-4, 10. ); r.E = v.lrx ? r.E * ( 1 + 1e-3 * g.real( 0.1, 1. ) ) : g.boolean() ? E + r.gg * g.real( -2., 2. ) : g.logreal( 1e-2, 1e6 ); if ( r.E == 0. or not energies.insert( r.E ).second ) continue; v.res.insert( v.res.begin() + long( g.below( v.res.size() + 1 ) ), r ); any = true; } if ( not any ) throw pbt::Skip{}; }
  endfgen::describe( c, d, E ); endfgen::describe( c, t, E ); Bound b; if ( kind == 2 ) { Expected want; if ( not expectedRM( d, E, want ) or not expectedRM( t, E, want ) ) throw pbt::Skip{}; b = boundOf( want ); } else { b = boundOf( d, endfgen::expectedBW( d, E, kind == 1 ) ); endfgen::expectedBW( t, E, kind == 1 ); }
  auto make = [&] ( const Data& x ) { return reconstructor( kind == 2 ? endfgen::reichMoore( x ) : endfgen::breitWigner( x, kind == 1 ), x.mn, target( x ) ); }; same( c, make( t )( eV( E ) ), make( d )( eV( E ) ), b, 1e-11, kind == 2 ? "Reich-Moore" : kind == 1 ? "multi-level" : "single-level" );
}
