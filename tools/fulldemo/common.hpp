#include "resonanceReconstruction.hpp"
#include <cstdio>
using namespace njoy::resonanceReconstruction;
using namespace njoy::resonanceReconstruction::rmatrix;
using namespace dimwits;
typedef std::map< ReactionID, CrossSection > Sigma;
static const ElectricalCharge unitCharge = 1.6021766208e-19 * coulombs;
static Particle neutronP() { return Particle( ParticleID( "n" ), 1.00866491582 * daltons, 0. * unitCharge, 0.5, +1 ); }
static Particle protonP() { return Particle( ParticleID( "p" ), 1.00727646688 * daltons, unitCharge, 0.5, +1 ); }
static Particle photonP() { return Particle( ParticleID( "photon" ), 0. * daltons, 0. * unitCharge, 1., +1 ); }
static Particle nucleus( const char* name, double mass, double Z, double spin ) { return Particle( ParticleID( name ), mass * daltons, Z * unitCharge, spin, +1 ); }
static ReducedWidth rw( double x ) { return x * rootElectronVolt; }
static int failures = 0;
static void check( const char* what, double got, double want, double rel ) {
  bool ok = std::fabs( got - want ) <= rel * std::fabs( want );
  std::printf( "%s: %.12g, expected %.12g %s\n", what, got, want, ok ? "" : "WRONG" );
  failures += not ok;
}
