// Generated ENDF resonance data (Breit-Wigner, Reich-Moore), their translation to the ENDF data types, and the
// Breit-Wigner reference for them.
#ifndef VERIF_ENDFGEN
#define VERIF_ENDFGEN
#include "pbt.hpp"
#include "rmref.hpp"
#include "bwref.hpp"

namespace endfgen {
using rmref::R; using rmref::Z;
struct Tab { std::vector< double > x, y; std::vector< long > bound, law; };
static double at( const Tab& t, double E ) {
  std::size_t begin = 0;
  for ( std::size_t r = 0; r < t.bound.size(); ++r ) { std::size_t end = std::size_t( t.bound[r] );
    for ( std::size_t i = begin + 1; i < end; ++i ) if ( E <= t.x[i] ) { double x0 = t.x[i-1], x1 = t.x[i], y0 = t.y[i-1], y1 = t.y[i]; if ( E == x1 ) return y1; if ( E == x0 ) return y0;
      switch ( t.law[r] ) { case 1: return y0; case 2: return y0 + ( y1 - y0 ) * ( E - x0 ) / ( x1 - x0 ); case 3: return y0 + ( y1 - y0 ) * std::log( E / x0 ) / std::log( x1 / x0 );
        case 4: return y0 * std::pow( y1 / y0, ( E - x0 ) / ( x1 - x0 ) ); default: return y0 * std::pow( y1 / y0, std::log( E / x0 ) / std::log( x1 / x0 ) ); } }
    begin = end - 1; }
  throw pbt::Skip{};
}
static Tab table( pbt::Src& g, double E ) {
  Tab t; int n = int( g.count( 2, 6, 40 ) ); t.x = { 1e-9, 1e9 }; for ( int i = 2; i < n; ++i ) t.x.push_back( g.boolean() ? g.logreal( 1e-6, 1e7 ) : E * g.real( 0.5, 2. ) );
  std::sort( t.x.begin(), t.x.end() ); t.x.erase( std::unique( t.x.begin(), t.x.end() ), t.x.end() );
  for ( std::size_t i = 0; i < t.x.size(); ++i ) t.y.push_back( g.real( 0.2, 1.2 ) );
  for ( long b = 2; b <= long( t.x.size() ); ++b ) if ( b == long( t.x.size() ) or g.chance( 30 ) ) { t.bound.push_back( b ); t.law.push_back( g.integer( 1, 5 ) ); }
  return t;
}
struct Rs { double E, J, gn, gg, gf, gf2, gx; };
struct Lv { int l; double qx, apl; int lrx; std::vector< Rs > res; };
struct Data { bool modern; double mn, awri, ap, el, eh; int I2, nro, naps, nlsc; Tab tab; std::vector< Lv > l; };  // modern: the conventions of rmatrix::fromENDF

static double formula( const Data& d ) { return 0.123 * std::cbrt( d.mn * d.awri ) + 0.08; }
// wave number in barn^-1/2: with the constants of the older interface, or from the masses
static R waveNumber( const Data& d, R E ) {
  if ( not d.modern ) return 5.787793139e-14L / 1.054571800e-34L * std::sqrt( 1.6021766208e-19L ) * 1e-14L * R( d.awri ) / ( R( d.awri ) + 1 ) * std::sqrt( std::fabs( E ) );
  R r = R( d.awri ) / ( R( d.awri ) + 1 ); return std::sqrt( 2 * r * R( d.mn ) * rmref::amu * std::fabs( E ) * r / rmref::e ) / rmref::hbar * 1e-14L; }
// radius for the penetrability and for the phase shift
static double channelRadius( const Data& d, double apl, double E ) {
  double ap = apl != 0. ? apl : d.ap;
  if ( d.nro ) return d.naps == 0 ? formula( d ) : d.naps == 1 ? at( d.tab, E ) : ap;
  return d.naps == 0 ? formula( d ) : ap; }
static double phaseRadius( const Data& d, double apl, double E ) { return d.nro ? at( d.tab, E ) : apl != 0. ? apl : d.ap; }

static Data data( pbt::Src& g, double E, int maxL, int maxRes, bool reichMoore, bool modern = false ) {
  Data d; d.modern = modern; d.mn = modern and g.chance( 30 ) ? g.real( 1., 1.02 ) : 1.00866491582; d.awri = g.chance( 50 ) ? g.real( 20., 250. ) : g.real( 0.999, 250. ); d.ap = g.real( 0.2, 1.2 ); d.I2 = int( g.below( 12 ) ); d.el = 1e-5; d.eh = 2e7;
  d.nro = g.chance( 35 ); d.naps = int( g.below( d.nro ? 3 : 2 ) ); d.nlsc = 0; if ( d.nro ) d.tab = table( g, E );
  int n = int( g.integer( 1, maxL ) ); std::set< int > used; std::set< double > energies; if ( modern ) d.nlsc = n + int( g.below( 3 ) );
  for ( int i = 0; i < n; ++i ) {
    Lv v; v.l = modern ? i : int( g.below( 5 ) ); if ( not used.insert( v.l ).second ) continue;
    v.apl = reichMoore and g.chance( 40 ) ? g.real( 0.2, 1.2 ) : 0.; v.lrx = not reichMoore and g.chance( 35 ); v.qx = v.lrx ? ( g.boolean() ? -E * g.real( 0.05, 2. ) : g.logreal( 1., 1e6 ) ) : g.chance( 20 ) ? g.real( -100., 100. ) : 0.;
    std::vector< double > Js; for ( int s2 = std::abs( d.I2 - 1 ); s2 <= d.I2 + 1; s2 += 2 ) for ( int J2 = std::abs( 2 * v.l - s2 ); J2 <= 2 * v.l + s2; J2 += 2 ) Js.push_back( J2 / 2. );
    int m = int( maxRes > 1 ? g.count( modern and not reichMoore ? 1 : 0, maxRes, 60 ) : g.integer( modern and not reichMoore ? 1 : 0, maxRes ) );
    for ( int j = 0; j < m; ++j ) {
      Rs r; r.J = g.pick( Js ); if ( r.J != 0. and ( not modern or ( reichMoore and std::count( Js.begin(), Js.end(), r.J ) > 1 ) ) and g.chance( reichMoore ? 25 : 5 ) ) r.J = -r.J; r.gg = not reichMoore and g.chance( 5 ) ? 0. : g.logreal( 1e-4, 10. );
      r.gf = g.chance( 60 ) ? 0. : g.logreal( 1e-4, 10. ); r.gf2 = reichMoore and g.chance( 30 ) ? g.logreal( 1e-4, 10. ) : 0.;
      if ( reichMoore and g.boolean() ) r.gf = -r.gf; if ( g.boolean() ) r.gf2 = -r.gf2;
      double wide = r.gg + std::fabs( r.gf ) + std::fabs( r.gf2 );
      switch ( g.below( 4 ) ) { case 0: r.E = g.logreal( 1e-3, 1e6 ); break; case 1: r.E = -g.logreal( 1e-3, 1e4 ); break; case 2: r.E = E + wide * g.real( -3., 3. ); break; default: r.E = E * g.real( 0.5, 1.7 ); }
      if ( v.lrx ) { double t = -v.qx * ( d.awri + 1 ) / d.awri; if ( r.E - t < 2e-3 * ( std::fabs( r.E ) + 2 * std::fabs( v.qx ) ) ) r.E = t + std::fabs( v.qx ) * g.real( 0.05, 2. ); }  // above the competitive threshold
      if ( std::fabs( r.E ) < 1e-6 ) r.E = 1.;
      if ( not energies.insert( r.E ).second ) r.E *= 1 + 1e-3 * double( energies.size() ); energies.insert( r.E );
      double Pr = double( hardsphere::PS( v.l, waveNumber( d, r.E ) * channelRadius( d, v.apl, std::fabs( r.E ) ) ).P );
      r.gn = g.chance( 80 ) ? Pr * g.logreal( 1e-6, 1e3 ) : std::min( g.logreal( 1e-8, 10. ), Pr * 1e5 ); r.gx = v.lrx and g.chance( 80 ) ? ( r.gn + r.gg + r.gf ) * g.logreal( 0.02, 10. ) : 0.;
      v.res.push_back( r ); }
    d.l.push_back( v ); }
  return d;
}
static void describe( pbt::Case& c, const Data& d, double E ) {
  if ( not c.verbose ) return; c.note( "E=", E, " AWRI ", d.awri, " I=", d.I2, "/2 AP ", d.ap, " NRO ", d.nro, " NAPS ", d.naps );
  if ( d.nro ) { for ( std::size_t i = 0; i < d.tab.x.size(); ++i ) c.note( "radius ", d.tab.y[i], " at ", d.tab.x[i] ); for ( std::size_t i = 0; i < d.tab.law.size(); ++i ) c.note( "law ", d.tab.law[i], " to ", d.tab.bound[i] ); }
  for ( auto& v : d.l ) { c.note( "l=", v.l, " APL ", v.apl, " LRX ", v.lrx, " QX ", v.qx ); for ( auto& r : v.res ) c.note( "ER ", r.E, " J ", r.J, " GN ", r.gn, " GG ", r.gg, " GF ", r.gf, " ", r.gf2, " GX ", r.gx ); } }

// ------------------------------------------------------------------------------------ translation to ENDF
typedef njoy::ENDFtk::section::Type< 2, 151 > S;
static endf::ResonanceRange range( const Data& d, int lru, int lrf, S::Parameters p ) {
  endf::ResonanceRange r{ d.el, d.eh, lru, lrf, d.nro, d.naps, std::nullopt, std::move( p ) }; if ( d.nro ) r.radius_ = S::ScatteringRadius( d.tab.bound, d.tab.law, d.tab.x, d.tab.y ); return r; }
static std::vector< S::BreitWignerLValue > bwLvalues( const Data& d ) {
  std::vector< S::BreitWignerLValue > ls; for ( auto& v : d.l ) { std::vector< S::BreitWignerLValue::Resonance< S::Chunk > > rs;
    for ( auto& r : v.res ) rs.push_back( { r.E, r.J, r.gn + r.gg + r.gf + r.gx, r.gn, r.gg, r.gf } ); ls.emplace_back( d.awri, v.qx, v.l, v.lrx, std::move( rs ) ); } return ls; }
static endf::ResonanceRange breitWigner( const Data& d, bool multi ) {
  if ( multi ) return range( d, 1, 2, S::MultiLevelBreitWigner( d.I2 / 2., d.ap, bwLvalues( d ) ) ); return range( d, 1, 1, S::SingleLevelBreitWigner( d.I2 / 2., d.ap, bwLvalues( d ) ) ); }
static endf::ResonanceRange reichMoore( const Data& d ) {
  std::vector< S::ReichMooreLValue > ls; for ( auto& v : d.l ) { std::vector< S::ReichMooreLValue::Resonance< S::Chunk > > rs;
    for ( auto& r : v.res ) rs.push_back( { r.E, r.J, r.gn, r.gg, r.gf, r.gf2 } ); ls.emplace_back( d.awri, v.apl, v.l, std::move( rs ) ); }
  return range( d, 1, 3, S::ReichMoore( d.I2 / 2., d.ap, 0, d.nlsc, std::move( ls ) ) ); }
struct Xs { R el = 0, cap = 0, fis = 0, eEl = 0, eCap = 0, eFis = 0; };
static Xs expectedBW( const Data& d, double E, bool multi ) {
  Xs out; R kk = waveNumber( d, E ), f = rmref::pi / ( kk * kk ); double up = ( d.awri + 1 ) / d.awri;
  for ( auto& v : d.l ) {
    R a = channelRadius( d, 0., E ), ap = phaseRadius( d, 0., E ); bwref::Point p; auto ps = hardsphere::PS( v.l, kk * a ); p.P = ps.P; p.S = ps.S; p.phi = rmref::phase( v.l, kk * ap ); p.dphi = 4e-15L * ( 1 + kk * ap ); p.Q = p.P; p.dQ = 0;
    if ( v.lrx ) { R Ex = E + R( v.qx ) * up, size = E + 2 * std::fabs( R( v.qx ) ); if ( std::fabs( Ex ) < 1e-4L * size ) throw pbt::Skip{}; p.Q = 0;
      if ( Ex > 0 ) p.Q = hardsphere::PS( v.l, waveNumber( d, Ex ) * channelRadius( d, 0., double( Ex ) ) ).P; p.dQ = 1e-14L * ( 2 * v.l + 1 ) * size / std::fabs( Ex ); if ( d.nro and d.naps == 1 ) p.dQ += 1e-9L; }
    R sn = std::sin( p.phi ); out.el += f * 4 * ( 2 * v.l + 1 ) * sn * sn; out.eEl += f * 4 * ( 2 * v.l + 1 ) * ( 2 * std::fabs( sn ) * p.dphi + p.dphi * p.dphi + 1e-13L * sn * sn );
    std::map< double, std::vector< bwref::Level > > byJ;
    for ( auto& r : v.res ) { bwref::Level x{ r.E, r.gn, r.gg, r.gf, r.gx, 0, 0, 0 }; R ar = channelRadius( d, 0., std::fabs( r.E ) ); auto q = hardsphere::PS( v.l, waveNumber( d, r.E ) * ar ); x.P = q.P; x.S = q.S; x.Q = q.P;
      if ( v.lrx ) { R Ex = r.E + R( v.qx ) * up; if ( Ex < 1e-3L * ( std::fabs( R( r.E ) ) + 2 * std::fabs( R( v.qx ) ) ) ) throw pbt::Skip{}; x.Q = hardsphere::PS( v.l, waveNumber( d, Ex ) * channelRadius( d, 0., double( Ex ) ) ).P;
        x.comp = ( R( r.gn + r.gg + r.gf + r.gx ) - R( r.gn + r.gg + r.gf ) ); if ( r.gx < 1e-2 * ( r.gn + r.gg + r.gf ) and r.gx != 0. ) throw pbt::Skip{}; }
      else x.comp = 0;
      byJ[ std::fabs( r.J ) ].push_back( x ); }
    if ( d.nro and d.naps == 1 ) p.dQ += 1e-10L; // the steepness of the table
    for ( auto& j : byJ ) { auto s = bwref::group( j.second, v.l, E, p, multi ); R g = ( 2 * j.first + 1 ) / ( 2 * ( d.I2 + 1 ) ), x = d.nro ? 1e-11L : 1e-13L;
      out.el += f * g * s.el; out.eEl += f * g * ( s.eEl + x * std::fabs( s.el ) ); out.cap += f * g * s.cap; out.eCap += f * g * ( s.eCap + x * s.cap ); out.fis += f * g * s.fis; out.eFis += f * g * ( s.eFis + x * s.fis ); } }
  return out;
}
}
#endif
