// Breit-Wigner cross sections of one (l,J) group from the formulae of ENDF-102 (D.1.1, D.1.2), in long double,
// in units of g pi/k^2 and without potential scattering, with estimates of the rounding error in double precision.
#ifndef VERIF_BWREF
#define VERIF_BWREF
#include "pbt.hpp"
#include "rmref.hpp"
namespace bwref {
using rmref::R; using rmref::Z;
struct Level { R E, el, cap, fis, comp, P, Q, S; };   // P, Q, S: at the resonance energy
struct Point { R P, S, Q, dQ, phi, dphi; };           // at E; dQ: relative error of Q, dphi: absolute error of phi
struct Sum { R el = 0, cap = 0, fis = 0, eEl = 0, eCap = 0, eFis = 0; };
inline Sum group( const std::vector< Level >& res, int l, R E, const Point& p, bool multi ) {
  Sum out; Z X = 0; R eX = 0, slbw = 0, eS = 0, sn = std::sin( p.phi ), s2 = std::sin( 2 * p.phi );
  for ( auto& r : res ) {
    R gam = r.el / r.P, gn = gam * p.P, gt = gn + r.cap + r.fis + ( r.comp != 0 ? r.comp / r.Q * p.Q : 0 );
    R dE = E - ( r.E + ( r.S - p.S ) / 2 * gam ), den = dE * dE + gt * gt / 4;
    R eE = 4e-16L * ( std::fabs( E ) + std::fabs( r.E ) + std::fabs( gam ) * ( std::fabs( p.S ) + std::fabs( r.S ) ) ) + 1e-14L * std::fabs( gam ) * std::fabs( p.S + l );
    R rel = 2 * eE / std::sqrt( den ) + 1e-13L + ( r.comp != 0 ? p.dQ : 0 ) + 1e-14L * ( 2 * l + 1 );
    if ( den == 0 or rel > 1e-6L ) throw pbt::Skip{};
    Z x = gn / Z( -dE, -gt / 2 ); X += x; eX += std::abs( x ) * rel;
    slbw += gn * ( gn - 2 * gt * sn * sn + 2 * dE * s2 ) / den;
    eS += gn * ( gn + 2 * gt * sn * sn + 2 * std::fabs( dE * s2 ) ) / den * 2 * rel + gn * ( 4 * gt * ( std::fabs( sn ) + p.dphi ) * p.dphi + 4 * std::fabs( dE ) * p.dphi + 2 * eE * std::fabs( s2 ) ) / den;
    R c = gn * r.cap / den, f = gn * r.fis / den; out.cap += c; out.eCap += c * 2 * rel; out.fis += f; out.eFis += f * 2 * rel;
  }
  if ( multi ) { Z d0( -2 * sn * sn, s2 ); out.el = std::norm( X ) + 2 * std::real( std::conj( d0 ) * Z( 0, -1 ) * X );
    out.eEl = eS + 2 * std::abs( X ) * eX + 2 * eX * eX + 1e-13L * eX + 4 * std::abs( X ) * p.dphi + 1e-15L * std::norm( X ); }
  else { out.el = slbw; out.eEl = eS; }
  return out;
}
}
#endif
