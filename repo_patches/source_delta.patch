From 3c4cdc686e686012f14a9bcbc56d1ed491b4c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:35 +0000
Subject: [PATCH 01/24] fix: keep the sign of F in the charged particle phase
 shift

acos( G / sqrt( F^2 + G^2 ) ) gives -phi instead of phi wherever F < 0
(rho beyond about pi), so that exp( 2 i phi ) came out conjugated.
---
 src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
index d827a06..cd4d738 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
@@ -71,5 +71,5 @@ double calculatePhaseShift< ChargedParticle >( const unsigned int l,
   double G = gf.real();
   return ( F == 0. ) and ( G == 0. )
            ? 0.
-           : std::acos( G / std::sqrt( F * F + G * G ) );
+           : std::atan2( F, G );
 }
-- 
2.43.0


From e5261c0f3f946988ead2cd9d78f35f1ed8d8c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:35 +0000
Subject: [PATCH 02/24] fix: correct the derivative of G0 in the second Riccati
 expansion

The factor x1*y1 (1/(2 eta (1-x))) applies to all terms of b (compare g1, g3, g5
and g7 in omGcase1), not only to the first one. For 5 <= eta < 15 and rho > 2 eta the
penetrabilities, shift factors and phase shifts were off by up to 0.3 %.
---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 146230e..d44cd4e 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -171,7 +171,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 =  3.0*(x*(x*(x*(39.*x-260.)+728.)-832.)+2560.)/4096.;
   g3 = -3.0*(x*(x*(x*(x*(x*(1899.*x-17724.)+73432.)-177280.)+308480.)
            +196608.)+860160.)/131072.;
-  b = x1*y1/4.0+g0*(g1+g0*(g2+g0*g3));
+  b = x1*y1*(1.0/4.0+g0*(g1+g0*(g2+g0*g3)));
 
   m = 1.0/std::sqrt(x2)*exp(psi);
 
-- 
2.43.0


From 01b9fccaeac68df5e9ff65cd5edf5fc0e7232d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:35 +0000
Subject: [PATCH 03/24] fix: correct a coefficient of the second Riccati
 expansion

The polynomial in g3 is that of g6 in omGcase1 in reverse order: the coefficient
is 13178880.
---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index d44cd4e..0615c7e 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -149,7 +149,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 = -(x*(x*(x*(x*(x*(-1890.*x+7560.)-12240.)-13440.)+16128.)-9216.)+2048.)
        /92160.;
   g3 = -(x*(x*(x*(x*(x*(x*(x*(x*(x*(130977.*x
-       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+15178880.)
+       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+13178880.)
        -11714560.)+6389760.)-1966080.)+  262144.)/10321920.;
   g4 = 2.0*y*(x2/x+0.5*log((1.0-x2)/(1.0+x2)))+PI_4;
   fai = g4+std::sqrt(g0)*(g1+g0*(g2+g0*g3));
-- 
2.43.0


From 0664eda3fbfcf528f1637993d954bf3a50b1632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 04/24] fix: start the recurrence for F beyond the turning
 point

lmax is limited by the size of the work arrays, so that for rho above about 50 the
downward recurrence started below the turning point, where it is unstable. The result
was wrong by orders of magnitude without any error (the Wronskian check cannot see
it because of the normalisation). Values of rho that are out of reach are now refused
by the existing check on l0.
---
 src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
index 7411b67..ddafc11 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-extwave.hpp
@@ -77,7 +77,11 @@ int omExternalFunction(int lmax, double rho_match, double coulomb, double coulom
 
   lmax = (l==MAX_L-1) ? l-1 : l;
 
+  /*** the downward recurrence has to start beyond the turning point */
+  double turning = rho_match*(rho_match-2.0*coulomb);
   int  l0   = lmax+10;
+  if(turning > 0.0)
+    l0 = std::max(l0, (int)std::fmin(std::sqrt(turning), MAX_L0)+20);
   bool flag = false;
   do{
     flag = false;
-- 
2.43.0


From c2fd96681fae9a482783bf2b7587f92c826cfd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:08 +0000
Subject: [PATCH 05/24] fix: refuse orbital angular momenta beyond the Coulomb
 work arrays

Cou0[l] and Cou1[l] were read out of bounds for l >= MAX_L.
---
 src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index 9d87581..c48a669 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -19,6 +19,9 @@ void coulombWaveFunctions( int l, double ratio, double eta,
                            std::complex<double>& gf,
                            std::complex<double>& dgf ) {
 
+  // the work arrays only hold l + 1 up to MAX_L - 1
+  if ( l > MAX_L - 2 ) { throw std::exception(); }
+
   double y2 = eta*eta;
   double y3 = 16.0 + y2;
   double y4 = y3*y3;
-- 
2.43.0


From d7af55539db0e19e124532031bb58b2a47bdd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 06/24] fix: always integrate from the starting radius of G0 to
 the matching radius

For eta >= 15 and rho between 2 eta + 0.01 and 2 eta + 0.02 the number of steps was
zero, and G0 was used at the wrong radius (0.3 % off).
---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 0615c7e..a08fa95 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -261,7 +261,7 @@ void omAsymptotic(double rm, double coulomb, double sigma0, double *g0, double *
 
   if((p0 != 0.0) && (p1 != 0.0)){
     if((dr = ra-rm) != 0.0){
-      n = std::abs((int)( dr/MESH_RHO )+1);
+      n = std::abs((int)( dr/MESH_RHO ))+1;
       mesh = dr/(double)n;
       omNewmark(n,mesh,coulomb,ra,&p0,&p1);
     }
-- 
2.43.0


From 9f966e2dcc18a13ac8660d8f1a8535f04751b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:38 +0000
Subject: [PATCH 07/24] fix: vanishing penetrability of a charged particle
 channel exactly at its threshold

The Sommerfeld parameter is infinite there, which turned every cross
section of the spin group into NaN.
---
 src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
index c48a669..f45b3e9 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-coulomb.hpp
@@ -22,6 +22,9 @@ void coulombWaveFunctions( int l, double ratio, double eta,
   // the work arrays only hold l + 1 up to MAX_L - 1
   if ( l > MAX_L - 2 ) { throw std::exception(); }
 
+  // exactly at the threshold of the channel the penetrability vanishes
+  if ( ratio == 0.0 ) { gf = dgf = 0.0; return; }
+
   double y2 = eta*eta;
   double y3 = 16.0 + y2;
   double y4 = y3*y3;
-- 
2.43.0


From 4f09a38a2a632da30a23407af81ad3909b66ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:20 +0000
Subject: [PATCH 08/24] fix: subtract the Coulomb phase factor exp(2iw) from
 the elastic collision matrix element

The diagonal elements of U carry exp(2i(w - phi)), so the amplitude of a
charged incident channel is exp(2iw) - U (ENDF-102, appendix D). With
exp(iw), elastic scattering without any interaction did not vanish for
l > 0.
---
 .../rmatrix/SpinGroup/src/evaluate.hpp                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
index a2526f5..4f83457 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
@@ -67,12 +67,12 @@ void evaluate( const Energy& energy,
                                    incidentSqrtP * tValue * sqrtP ) * omega; },
             delta( 1.0 ), row, diagonalSqrtPMatrix, diagonalOmegaMatrix );
 
-    // the exponential of the coulomb phase shift for the incident channel
+    // the exponential of twice the coulomb phase shift for the incident channel
     const auto exponential =
-      std::exp( std::complex< double >( 0., coulombShifts[c] ) );
+      std::exp( std::complex< double >( 0., 2. * coulombShifts[c] ) );
 
     // the cross section values for channel c to c' - independent of formalism
-    // sigma_cc' = norm( exp( iw_c ) delta_cc' - U_cc' )
+    // sigma_cc' = norm( exp( 2iw_c ) delta_cc' - U_cc' )
     const auto sigma =
       ranges::view::zip_with(
           [&] ( const auto delta, const auto uValue )
-- 
2.43.0


From c3d519a2336672dab21782fe0cae5ed5a76319f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:53 +0000
Subject: [PATCH 09/24] fix: verify the channels of a spin group before using
 the first one

The reaction identifiers were derived from channels.front() before the
verification that refuses a spin group without channels.
---
 src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
index 0c1487f..624f455 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/ctor.hpp
@@ -7,8 +7,6 @@
 SpinGroup( std::vector< ParticleChannel >&& channels,
            ResonanceTable&& table ) :
   rlmatrix_( table ),
-  reactions_( makeReactionIdentifiers( channels,
-                                       Formalism() ) ),
   incident_( determineIncidentChannels( channels ) ),
   channels_( std::move( channels ) ),
   parameters_( std::move( table ) ) {
@@ -16,6 +14,8 @@ SpinGroup( std::vector< ParticleChannel >&& channels,
   verifyChannels( this->channels_ );
   verifyIncidentChannels( this->incident_ );
   verifyResonanceChannels( this->channels_, this->parameters_ );
+
+  this->reactions_ = makeReactionIdentifiers( this->channels_, Formalism() );
 }
 
 /**
-- 
2.43.0


From 6a1c79980c0d101f137aa3a089ffa67225655074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:08 +0000
Subject: [PATCH 10/24] fix: store the penetrability given to a Breit-Wigner
 resonance

---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index c85ad56..7723815 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -25,4 +25,5 @@ Resonance( const Energy& energy,
     competition_( competition ),
     elastic_to_penetrability_( elastic / P ),
     competition_to_penetrability_( competition / Q ),
+    penetrability_( P ),
     shiftfactor_( S ) {}
-- 
2.43.0


From 9cfb9c56d202dd21111ff00522dd316279ecacc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:22 +0000
Subject: [PATCH 11/24] fix: add the competitive Q value to the energy for the
 competitive penetrability

---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp           | 2 +-
 .../SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp        | 2 --
 .../SpinGroup/SingleLevelBreitWigner/src/precompute.hpp      | 5 +++--
 .../rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp          | 3 ++-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index 7723815..9b602ba 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -7,7 +7,7 @@
  *  @param[in] fission   the reduced fission width
  *  @param[in] total     the competitive total width
  *  @param[in] P         the penetrability at the energy Er
- *  @param[in] Q         the penetrability at the energy Er - Q
+ *  @param[in] Q         the penetrability at the energy Er + QX
  *  @param[in] S         the shift factor at the energy Er
  */
 Resonance( const Energy& energy,
diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp
index a4a1704..dc65ad9 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp
@@ -10,9 +10,7 @@ void evaluate( const Energy& energy,
   // data we need: k, P, phi, rho, g_J
   const auto channel = this->incidentChannel();
   const auto waveNumber = channel.waveNumber( energy );
-  const auto qx = this->QX();
   const auto p = channel.penetrability( energy );
-  const auto q = qx.value != 0. ? channel.penetrability( energy - qx ) : p;
   const auto s = channel.shiftFactor( energy );
   const auto phaseShift = channel.phaseShift( energy );
   const auto spinFactor = channel.statisticalSpinFactor();
diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
index 0b1eae7..9a9e422 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
@@ -1,10 +1,11 @@
 void precompute( const Energy& energy ) {
 
-  // data we need: P(E), P(E-Q), S(E)
+  // data we need: P(E), P(E+Q), S(E) - QX is given in the centre of mass system
   const auto channel = this->incidentChannel();
   const auto qx = this->QX();
   const auto p = channel.penetrability( energy );
-  const auto q = qx.value != 0. ? channel.penetrability( energy - qx )
+  const auto ratio = channel.incidentParticlePair().massRatio();
+  const auto q = qx.value != 0. ? channel.penetrability( energy + qx / ratio )
                                 : p;
   const auto s = channel.shiftFactor( energy );
 
diff --git a/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp b/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
index c1896bb..f675918 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
@@ -64,6 +64,7 @@ makeLegacyBreitWignerSpinGroups(
     // calculate P, Q and S
     unsigned int nr = ranges::distance( current );
     auto qx = endfLValue.QX() * electronVolt;
+    auto ratio = in.massRatio();
     bool lrx = endfLValue.competitiveWidthFlag();
     std::vector< Energy > energies =
         current | ranges::view::transform(
@@ -77,7 +78,7 @@ makeLegacyBreitWignerSpinGroups(
         lrx ? energies
                 | ranges::view::transform(
                     [&] ( const auto& energy )
-                        { return cElastic.penetrability( energy - qx ); } )
+                        { return cElastic.penetrability( energy + qx / ratio ); } )
             : p;
     std::vector< double > s =
         energies | ranges::view::transform(
-- 
2.43.0


From 219489b6b6eeeb2ec41e28e531317fe3e8b2e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 12/24] fix: convert the competitive Q value to the laboratory
 system in the older Breit-Wigner interface

---
 .../breitWigner/singleLevel/Apply/src/lvalue.hpp                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
index d37f5c5..d819b87 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
@@ -7,7 +7,7 @@ static auto lvalue( const endf::SingleLevelBreitWigner::LValue& lstate,
                     PenetrationShift&& penetrationShift,
                     double targetSpin ){
   if ( lstate.LRX() ){
-    const auto weightRatio = lstate.AWRI() / ( lstate.AWRI() + 1. );
+    const auto weightRatio = ( lstate.AWRI() + 1. ) / lstate.AWRI();
     const auto offset = lstate.QX() * weightRatio * electronVolts;
 
     auto rs =
-- 
2.43.0


From 1ff05f11696f4f6cdeadfe4022f636e847e4ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 13/24] fix: evaluate the channel ratio of a bound Breit-Wigner
 level at the absolute energy

---
 .../breitWigner/singleLevel/Apply/src/resonance.hpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
index 84f8b2e..f90fe54 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/resonance.hpp
@@ -15,7 +15,7 @@ static auto resonance(
 
   const auto competitiveWidth = 0.0 * electronVolts;
 
-  const auto ps = penetrationShift( rho( energy ) );
+  const auto ps = penetrationShift( rho( std::abs(energy) ) );
   const auto& penetrationFactor = ps[0];
   const auto& shiftFactor = ps[1];
 
-- 
2.43.0


From 9836afd9321547c244106903535352757b84acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 14/24] fix: refuse an unknown NAPS value instead of returning
 nothing

---
 .../breitWigner/multiLevel/Apply/src/call.hpp                   | 2 ++
 .../breitWigner/singleLevel/Apply/src/call.hpp                  | 2 ++
 src/resonanceReconstruction/reichMoore/Apply/src/call.hpp       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
index 71e4d20..5b25cb2 100644
--- a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
@@ -31,6 +31,8 @@ operator()( const endf::ResonanceRange& range,
         return callback( build( energyRange, mlbw, radius( mlbw.AP() ) ) );
       }
     }
+
+    throw std::runtime_error( "Unknown NAPS value" );
   }
   catch( std::bad_optional_access& ){
     Log::error( "Resonance range doesn't have scattering radius." );
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
index 37a83a0..2341b0b 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
@@ -32,6 +32,8 @@ operator()( const endf::ResonanceRange& range,
         return callback( build( energyRange, slbw, radius( slbw.AP() ) ) );
       }
     }
+
+    throw std::runtime_error( "Unknown NAPS value" );
   }
   catch( std::bad_optional_access& ){
     Log::error( "Resonance range doesn't have scattering radius." );
diff --git a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
index fbf33aa..c8b5431 100644
--- a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
@@ -46,6 +46,8 @@ operator()( const endf::ResonanceRange& range,
                                   rm, Both{}, radius( rm.AP() ), true ) );
       }
     }
+
+    throw std::runtime_error( "Unknown NAPS value" );
   }
   catch ( ... ) {
 
-- 
2.43.0


From 89fecffc75102d0aa26f0d2f2f78104e0dcedfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:58 +0000
Subject: [PATCH 15/24] fix: no competitive width below the competitive
 threshold (older Breit-Wigner interface)

---
 .../breitWigner/lvalue/Type/src/competitiveWidth.hpp         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp b/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
index 42cb0da..9f5b56d 100644
--- a/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
+++ b/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
@@ -1,8 +1,11 @@
 template< typename ChannelRatio >
 auto competitiveWidth( const Quantity< ElectronVolts > energy,
                        ChannelRatio&& rho ) const {
+  // the competitive channel is closed below its threshold
+  const auto competitiveEnergy = energy + *( this->weightedQValue );
   const double penetrationFactor =
-    this->penetrationShift( rho( energy + *( this->weightedQValue ) ) )[0];
+    competitiveEnergy > 0.0 * electronVolts
+      ? this->penetrationShift( rho( competitiveEnergy ) )[0] : 0.0;
   
   return [ penetrationFactor ]( const resonance::Type& r ){
     return r.weightedCompetitiveWidth * penetrationFactor;
-- 
2.43.0


From 230c776a7aaebd4db2e7b3091ccc46c8a73c6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:10 +0000
Subject: [PATCH 16/24] fix: no competitive width below the competitive
 threshold

---
 .../SpinGroup/SingleLevelBreitWigner/src/precompute.hpp     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
index 9a9e422..dc76867 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp
@@ -5,8 +5,10 @@ void precompute( const Energy& energy ) {
   const auto qx = this->QX();
   const auto p = channel.penetrability( energy );
   const auto ratio = channel.incidentParticlePair().massRatio();
-  const auto q = qx.value != 0. ? channel.penetrability( energy + qx / ratio )
-                                : p;
+  const Energy competition = energy + qx / ratio;
+  const auto q = qx.value == 0. ? p
+               : competition.value > 0. ? channel.penetrability( competition )
+                                        : 0.;
   const auto s = channel.shiftFactor( energy );
 
   // useful lambdas
-- 
2.43.0


From 89167935c852b3bfa1339185a65fcb80e8f600b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:25 +0000
Subject: [PATCH 17/24] fix: take the type of an R-matrix limited channel from
 its own particle pair

---
 .../rmatrix/src/makeParticleChannels.hpp                 | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
index a78bc8e..4c34998 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
@@ -62,12 +62,17 @@ makeParticleChannels(
 
   // do some range magic
   auto q = endfPairs.Q();
-  auto incidentPairs = ranges::view::repeat_n( incident, pairs.size() );
+  auto mt = endfPairs.MT();
+  auto incidentPairs = ranges::view::repeat_n( incident,
+                                               endfChannels.numberChannels() );
   auto channelPairs = endfChannels.particlePairNumbers()
                           | ranges::view::transform( getParticlePair );
   auto qValues = endfChannels.particlePairNumbers()
                      | ranges::view::transform( [&] ( unsigned int i )
                                                     { return q[ i - 1 ]; } );
+  auto reactions = endfChannels.particlePairNumbers()
+                       | ranges::view::transform( [&] ( unsigned int i )
+                                                      { return mt[ i - 1 ]; } );
   auto channelNumbers = ranges::view::zip_with(
                             makeChannelQuantumNumbers,
                             endfChannels.orbitalMomentumValues(),
@@ -85,5 +90,5 @@ makeParticleChannels(
              channelNumbers,
              channelRadii,
              endfChannels.boundaryConditionValues(),
-             endfPairs.MT() );
+             reactions );
 }
-- 
2.43.0


From 31600947aed473d67dccfc1b5c94b5beed8b5149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:25 +0000
Subject: [PATCH 18/24] fix: use the shift factor flag of the incident particle
 pair instead of the first one

---
 src/resonanceReconstruction/rmatrix/src/fromENDF.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
index 21c432a..1c9be01 100644
--- a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
@@ -65,7 +65,8 @@ fromENDF( const endf::ResonanceRange& endfResonanceRange,
           auto endfRMatrix =
             std::get< endf::RMatrixLimited >( endfResonanceRange.parameters() );
           bool shiftFactorBoundary =
-              endfRMatrix.particlePairs().shiftFactorFlag().front() == 0 ? true : false;
+              endfRMatrix.particlePairs().shiftFactorFlag()[
+                rmatrix::incident( endfRMatrix.particlePairs() ) ] == 0 ? true : false;
 
           switch ( endfRMatrix.formalism() ) {
 
-- 
2.43.0


From 5dc8b83ff356abe1e4c92dcb84db395eaaf6550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:48 +0000
Subject: [PATCH 19/24] fix: no eliminated channel in R-matrix limited data
 without a capture particle pair

---
 .../rmatrix/src/makeParticleChannelData.hpp           | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
index bab40e5..4281ea5 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
@@ -271,14 +271,21 @@ makeParticleChannelData(
                          channel );
     };
 
-    auto eliminatedPair = pairs[ rmatrix::eliminated( endfPairs ) ];
+    // without a capture particle pair, there is no eliminated channel
+    const auto index = rmatrix::eliminated( endfPairs );
+    if ( index == pairs.size() ) {
+
+      return static_cast< long >( channels.size() );
+    }
+
+    auto eliminatedPair = pairs[ index ];
     auto pairs = channels | ranges::view::transform( getParticlePair );
     auto found = std::find_if(
                      ranges::begin( pairs ),
                      ranges::end( pairs ),
                      [&] ( const auto& pair )
                          { return eliminatedPair.pairID() == pair.pairID(); } );
-    return std::distance( ranges::begin( pairs ), found );
+    return static_cast< long >( std::distance( ranges::begin( pairs ), found ) );
   }();
 
   // go over the data and create the particle channel data
-- 
2.43.0


From 7c63846cd257935af177369f459ceabebe014ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:48 +0000
Subject: [PATCH 20/24] fix: use the l-dependent radius for Reich-Moore elastic
 channels without resonances

---
 .../src/makeReichMooreCompoundSystem.hpp       | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
index d18cdd6..19f241d 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
@@ -21,10 +21,6 @@ makeReichMooreCompoundSystem(
                    Particle( target, awri * neutronMass,
                              0.0 * coulombs, spin, +1) );
 
-  // channel radii
-  ChannelRadii radii = makeChannelRadii( ap, nro, naps,
-                                         awri, neutronMass.value );
-
   // create the spin groups and assign the quantum numbers
   auto required = makeQuantumNumbers( in, nlsc );
   auto lvalues = endfReichMoore.lValues();
@@ -41,6 +37,20 @@ makeReichMooreCompoundSystem(
   // add the remaining required elastic channels with no resonances
   for ( const auto& number : required ) {
 
+    // the channel radii: the l-dependent radius replaces ap when it is given
+    double radius = ap;
+    for ( const auto& lvalue : lvalues ) {
+
+      if ( ( static_cast< unsigned int >( lvalue.orbitalMomentum() ) ==
+             number.orbitalAngularMomentum() ) and
+           ( lvalue.lDependentScatteringRadius() != 0. ) ) {
+
+        radius = lvalue.lDependentScatteringRadius();
+      }
+    }
+    ChannelRadii radii = makeChannelRadii( radius, nro, naps,
+                                           awri, neutronMass.value );
+
     Channel< Neutron > elastic( in, in, 0.0 * electronVolt, number, radii );
     data.emplace_back( elastic,
                        std::vector< Energy >{},
-- 
2.43.0


From 8472f58a5ea9b4a315d3e66aff3ba7bed7bc62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:48 +0000
Subject: [PATCH 21/24] fix: evaluate the penetrability and shift factor of a
 bound level at the absolute energy

---
 .../rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp         | 6 +++---
 .../rmatrix/src/makeReichMooreChannelData.hpp               | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp b/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
index f675918..c13a0ba 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeLegacyBreitWignerSpinGroups.hpp
@@ -73,17 +73,17 @@ makeLegacyBreitWignerSpinGroups(
     std::vector< double >  p =
         energies | ranges::view::transform(
                      [&] ( const auto& energy )
-                         { return cElastic.penetrability( energy ); } );
+                         { return cElastic.penetrability( std::abs( energy ) ); } );
     std::vector< double > q =
         lrx ? energies
                 | ranges::view::transform(
                     [&] ( const auto& energy )
-                        { return cElastic.penetrability( energy + qx / ratio ); } )
+                        { return cElastic.penetrability( std::abs( energy + qx / ratio ) ); } )
             : p;
     std::vector< double > s =
         energies | ranges::view::transform(
                      [&] ( const auto& energy )
-                         { return cElastic.shiftFactor( energy ); } );
+                         { return cElastic.shiftFactor( std::abs( energy ) ); } );
 
     // get the widths
     auto elastic =
diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
index 3b39a95..5a5e957 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
@@ -119,7 +119,7 @@ makeReichMooreChannelData(
     auto penetrabilities =
         energies | ranges::view::transform(
                      [&] ( const auto& energy )
-                         { return cElastic.penetrability( energy ); } );
+                         { return cElastic.penetrability( std::abs( energy ) ); } );
 
     // calculate reduced widths
     auto rwElastic = ranges::view::zip_with(
-- 
2.43.0


From 57febb844a747ef4d8e6e6c64b1032d7a2ff00af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:48 +0000
Subject: [PATCH 22/24] fix: distinct fission channels for the two channel
 spins of a Reich-Moore J value

---
 .../rmatrix/src/makeReichMooreChannelData.hpp             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
index 5a5e957..79b6d48 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreChannelData.hpp
@@ -85,15 +85,19 @@ makeReichMooreChannelData(
                                       ? static_cast< Parity >( +1 )
                                       : static_cast< Parity >( -1 ) );
 
+    // the fission channels for the two channel spin values (a negative J
+    // points to the lower one) are different channels
+    const std::string other = J < 0. ? "-" : "";
+
     // elastic and fission channels that will go in the spin groups
     Channel< Neutron > cElastic( in, in,  0.0 * electronVolt,
                                  nElastic, radii );
     Channel< Photon > cCapture( in, pCapture,  0.0 * electronVolt,
                                 nOther, radii );
-    Channel< Fission > cFission1( in, pFission, "fission1",
+    Channel< Fission > cFission1( in, pFission, "fission1" + other,
                                   0.0 * electronVolt,
                                   nOther, radii );
-    Channel< Fission > cFission2( in, pFission, "fission2",
+    Channel< Fission > cFission2( in, pFission, "fission2" + other,
                                   0.0 * electronVolt,
                                   nOther, radii );
 
-- 
2.43.0


From 1b72d42cfe1ca833bbba1ab41f5a895d61dd2aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:32 +0000
Subject: [PATCH 23/24] fix: refuse unresolved data without degrees of freedom
 for the elastic channel

---
 .../legacy/unresolved/ResonanceTable/src/verifyTable.hpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/unresolved/ResonanceTable/src/verifyTable.hpp b/src/resonanceReconstruction/rmatrix/legacy/unresolved/ResonanceTable/src/verifyTable.hpp
index 6890457..d94470d 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/unresolved/ResonanceTable/src/verifyTable.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/unresolved/ResonanceTable/src/verifyTable.hpp
@@ -20,6 +20,12 @@ void verifyTable( const std::vector< Resonance >& resonances,
     }
   };
 
+  if ( degrees.elastic == 0 ) {
+
+    Log::error( "The degrees of freedom for the elastic channel cannot be 0" );
+    throw std::exception();
+  }
+
   verifyDegreesOfFreedom( degrees.elastic );
   verifyDegreesOfFreedom( degrees.capture );
   verifyDegreesOfFreedom( degrees.fission );
-- 
2.43.0


From 1bc26d191ff5e6972fac5334ee41ab80db8d371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:04 +0000
Subject: [PATCH 24/24] fix: Coulomb phase shift of a charged particle channel
 exactly at its threshold

1/tan(inf) is NaN, which turned every cross section of the spin group into
NaN for l >= 1. The limit of the Coulomb phase shift sum is l * pi/2.
---
 .../rmatrix/src/calculateCoulombPhaseShift.hpp                 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/src/calculateCoulombPhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculateCoulombPhaseShift.hpp
index 68e7012..1deb358 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculateCoulombPhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculateCoulombPhaseShift.hpp
@@ -28,6 +28,9 @@ double calculateCoulombPhaseShift( const int, const double ) {
 template <>
 double calculateCoulombPhaseShift< ChargedParticle >( const int l,
                                                       const double eta ) {
+  // exactly at the threshold of the channel (k = 0), eta is infinite
+  if ( std::isinf( eta ) ) { return l * std::acos( -1. ) / 2.; }
+
   return ranges::accumulate(
              ranges::view::indices( 1, l + 1 )
                | ranges::view::transform(
-- 
2.43.0

