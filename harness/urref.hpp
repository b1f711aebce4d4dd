// Reference for unresolved resonances: level-averaged cross sections with width fluctuations.
#ifndef VERIF_URREF
#define VERIF_URREF
#include "rmbuild.hpp"
namespace urref {
using namespace gen;
inline R waveNumber( const Pair& p, R E ) { return std::sqrt( 2 * reduced( p ) * amu * std::fabs( E * ratio( p ) ) / e ) / hbar * 1e-14L; }
inline std::string elasticId( const Pair& p ) { return pairId( p ) + "->" + pairId( p ); }
inline std::string otherId( const Pair& p, const char* what ) { return pairId( p ) + "->" + what; }

// potential scattering for l = 0..lmax
inline void addPotential( const Pair& pair, R rF, int lmax, double E, Expected& out ) {
  R k = waveNumber( pair, E ), f = 4 * pi / ( k * k ); auto id = elasticId( pair );
  for ( int l = 0; l <= lmax; ++l ) { R s = std::sin( phase( l, k * rF ) ), d = 4e-15L * ( 1 + k * rF ); out.sigma[id] += f * ( 2 * l + 1 ) * s * s; out.error[id] += f * ( 2 * l + 1 ) * ( 2 * std::fabs( s ) * d + d * d + 1e-13L * s * s ); }
}
// quadrature of Hwang for chi-squared distributions with 1 to 4 degrees of freedom (ANL-5800, as printed in NJOY)
static const double QP[4][10] = {
  { 3.0013465e-3, 7.8592886e-2, .43282415, 1.3345267, 3.0481846, 5.8263198, 9.9452656, 15.782128, 23.996824, 36.216208 },
  { 1.3219203e-2, 7.2349624e-2, .19089473, .39528842, .74083443, 1.3498293, 2.5297983, 5.2384894, 13.821772, 75.647525 },
  { 1.0004488e-3, 2.6197629e-2, .14427472, .44484223, 1.0160615, 1.9421066, 3.3150885, 5.2607092, 7.9989414, 12.072069 },
  { 1.3219203e-2, 7.2349624e-2, .19089473, .39528842, .74083443, 1.3498293, 2.5297983, 5.2384894, 13.821772, 75.647525 } };
static const double QW[4][10] = {
  { .11120413, .23546798, .28440987, .22419127, .10967668, .030493789, .0042930874, 2.5827047e-4, 4.9031965e-6, 1.4079206e-8 },
  { .033773418, .079932171, .12835937, .17652616, .21347043, .21154965, .13365186, .022630659, 1.6313638e-5, 2.745383e-31 },
  { 3.3376214e-4, .018506108, .12309946, .29918923, .33431475, .17766657, .042695894, .0040760575, 1.1766115e-4, 5.0989546e-7 },
  { 1.7623788e-3, .021517749, .080979849, .18797998, .30156335, .29616091, .10775649, .0025171914, 8.9630388e-10, 0. } };
struct Fl { R el = 0, cap = 0, fis = 0, comp = 0; };
inline Fl fluctuation( double gn, double gg, double gf, double gx, int mu, int nu, int la ) {
  Fl r; if ( nu == 0 ) nu = 1; if ( la == 0 ) la = 1;
  for ( int i = 0; i < 10; ++i ) for ( int j = 0; j < ( gf != 0 ? 10 : 1 ); ++j ) for ( int k = 0; k < ( gx != 0 ? 10 : 1 ); ++k ) {
    R x = QP[mu-1][i], y = gf != 0 ? QP[nu-1][j] : 0, z = gx != 0 ? QP[la-1][k] : 0;
    R w = R( QW[mu-1][i] ) * ( gf != 0 ? QW[nu-1][j] : 1. ) * ( gx != 0 ? QW[la-1][k] : 1. ), d = x * gn + gg + y * gf + z * gx;
    r.el += w * x * x / d; r.cap += w * x / d; r.fis += w * x * y / d; r.comp += w * x * z / d; }
  return r;
}
struct UGroup { int l, J2; std::vector< double > E, D, g0, gg, gf, gx; int mu, nu, la; };
struct Ur { Pair pair; double rP, rF; std::vector< UGroup > groups; };
inline double at( const UGroup& x, const std::vector< double >& y, double E ) {
  for ( std::size_t i = 1; i < x.E.size(); ++i ) if ( E >= x.E[i-1] and E <= x.E[i] ) return y[i-1] + ( y[i] - y[i-1] ) * ( E - x.E[i-1] ) / ( x.E[i] - x.E[i-1] );
  throw pbt::Skip{}; }
// what rounding does to the interpolated value
inline double slack( const UGroup& x, const std::vector< double >& y, double E ) {
  for ( std::size_t i = 1; i < x.E.size(); ++i ) if ( E >= x.E[i-1] and E <= x.E[i] ) return 4e-16 * ( y[i-1] + y[i] ) * ( 1 + x.E[i] / ( x.E[i] - x.E[i-1] ) );
  throw pbt::Skip{}; }
inline void addGroup( const Ur& u, const UGroup& x, double E, Expected& out ) {
  R k = waveNumber( u.pair, E ), P = hardsphere::PS( x.l, k * u.rP ).P, sn = std::sin( phase( x.l, k * u.rF ) );
  double D = at( x, x.D, E ), gg = at( x, x.gg, E ), gf = at( x, x.gf, E ), gx = at( x, x.gx, E ); R gn = R( at( x, x.g0, E ) ) * std::sqrt( R( E ) ) * x.mu * P / ( k * u.rP );
  R rel = 1e-11L; for ( auto* y : { &x.D, &x.g0, &x.gg, &x.gf, &x.gx } ) { double v = at( x, *y, E ); if ( v < 1e6 * slack( x, *y, E ) ) throw pbt::Skip{}; if ( v != 0 ) rel += 4 * slack( x, *y, E ) / v; }
  auto r = fluctuation( double( gn ), gg, gf, gx, x.mu, x.nu, x.la ); R f = 2 * pi * pi / ( k * k ) * R( x.J2 + 1 ) / ( 2 * ( u.pair.b.spin2 + 1 ) ) / D;
  auto add = [&] ( std::string id, R v, R e ) { out.sigma[id] += v; out.error[id] += e; };
  add( elasticId( u.pair ), f * gn * ( gn * r.el - 2 * sn * sn ), f * gn * ( gn * r.el + 2 * sn * sn + 1e-3L * std::fabs( sn ) * ( 1 + k * u.rF ) ) * rel );
  add( otherId( u.pair, "capture" ), f * gn * gg * r.cap, f * gn * gg * r.cap * rel );
  if ( gf != 0 ) add( otherId( u.pair, "fission" ), f * gn * gf * r.fis, f * gn * gf * r.fis * rel ); }
}
#endif
