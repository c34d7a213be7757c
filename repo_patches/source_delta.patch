From fbf05968ed5d7e46e647280422d368af3827061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:55 +0000
Subject: [PATCH 001/105] fix: ray-trace stored impact coordinates with the
 thread's own astrobj

Scenery::operator() used the astrobj shared by all the threads when
impactcoords were provided: Astrobj::Generic::radiativeQ() writes to the
object, hence a data race.
---
 lib/Scenery.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 27023a1..3e45416 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -747,7 +747,8 @@ void Scenery::operator() (
       ph -> resetTransmission();
       state_t coord(8);
       ph -> getInitialCoord(coord);
-      astrobj() -> processHitQuantities(ph,coord,impactcoords,0.,data);
+      // use this Photon's own Astrobj: in a thread, it is a private clone
+      ph -> astrobj() -> processHitQuantities(ph,coord,impactcoords,0.,data);
     }
   } else {
 #   if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From 3e50b88a8e905b7ab85f921b3d512f4d4e4d1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:55 +0000
Subject: [PATCH 002/105] fix: don't dereference the pixel iterator past its
 end

Each ray-tracing worker read one element past the end of Screen::Indices
and Screen::Angles buffers before checking that the iterator was valid.
---
 lib/Scenery.C | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 3e45416..82a8fbd 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -267,11 +267,6 @@ static void * SceneryThreadWorker (void *arg) {
     if (larg->mutex) pthread_mutex_lock(larg->mutex);
 #endif
 
-    // copy i & j or alpha and delta
-
-    if (larg->is_pixel) ijb =  *(larg->ij);
-    else ad = larg->ij.angles();
-
     if (!larg->ij.valid()) {
       // terminate, but first...
 #ifdef HAVE_PTHREAD
@@ -281,6 +276,10 @@ static void * SceneryThreadWorker (void *arg) {
       break;
     }
 
+    // copy i & j or alpha and delta
+    if (larg->is_pixel) ijb =  *(larg->ij);
+    else ad = larg->ij.angles();
+
     size_t lcnt = larg->cnt++;
 
     ++(larg->ij);
-- 
2.43.0


From d762644b128678a8fe1afa22f5c8aea118f31cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:05 +0000
Subject: [PATCH 003/105] fix: ThinDiskProfile dereferenced a NULL Properties
 pointer

processHitQuantities() may be called with data==NULL (Photon::hit(NULL),
Complex astrobj). The ImpactCoords branch could only be reached in that
case. Do the same as StochasticThinDisk. Also release nuem.
---
 lib/ThinDiskProfile.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/ThinDiskProfile.C b/lib/ThinDiskProfile.C
index 2eb917a..f227606 100644
--- a/lib/ThinDiskProfile.C
+++ b/lib/ThinDiskProfile.C
@@ -465,6 +465,7 @@ void ThinDiskProfile::processHitQuantities(Photon* ph,
  	  * ggred*ggred*ggred; // I/nu^3 invariant
          *data->spectrum += inc; // data->spectrum[ii*data->offset] += inc  !Error
        }
+       delete [] nuem;
        #if GYOTO_DEBUG_ENABLED
          GYOTO_DEBUG_EXPR(*data->spectrum);
        #endif
@@ -474,12 +475,13 @@ void ThinDiskProfile::processHitQuantities(Photon* ph,
          GYOTO_DEBUG_EXPR(*data->redshift);
        #endif
     }
-       else GYOTO_ERROR("unimplemented data");
-   } else if (data->impactcoords ) { // && data->impactcoords[0]==DBL_MAX to get only the n=0 coordinates
+     else if (data->impactcoords ) { // && data->impactcoords[0]==DBL_MAX to get only the n=0 coordinates
       if (coord_ph_hit.size() > 8) GYOTO_ERROR("ImpactCoords is incompatible with parallel transport");
       memcpy(data->impactcoords, coord_obj_hit, 8 * sizeof(double));
       memcpy(data->impactcoords+8, &coord_ph_hit[0], 8 * sizeof(double));
       //cout << setprecision(18);
       //cout << endl << "t,r,theta,phi: " << coord_obj_hit[0] << " " << coord_obj_hit[1] << " " << coord_obj_hit[2] << " " << coord_obj_hit[3] << endl; 
     }
+       else GYOTO_ERROR("unimplemented data");
+   }
  }
-- 
2.43.0


From 2e8a8842300806db252690192ee15a65810f82ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:05 +0000
Subject: [PATCH 004/105] fix: leak in
 StochasticThinDisk::processHitQuantities()

---
 lib/StochasticThinDisk.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/StochasticThinDisk.C b/lib/StochasticThinDisk.C
index 3be6860..da8a40b 100644
--- a/lib/StochasticThinDisk.C
+++ b/lib/StochasticThinDisk.C
@@ -438,6 +438,7 @@ void StochasticThinDisk::processHitQuantities(Photon* ph,
  	  * ggred*ggred*ggred; // I/nu^3 invariant
          *data->spectrum += inc; // data->spectrum[ii*data->offset] += inc  !Error
        }
+       delete [] nuem;
        #if GYOTO_DEBUG_ENABLED
          GYOTO_DEBUG_EXPR(*data->spectrum);
        #endif
-- 
2.43.0


From bc5804fe08415a71a885cdcec23627c4967bdc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:29 +0000
Subject: [PATCH 005/105] fix: theta-derivative of W in
 BalasinGrumiller::christoffel()

---
 lib/BalasinGrumiller.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/BalasinGrumiller.C b/lib/BalasinGrumiller.C
index ad883d8..fc49c17 100644
--- a/lib/BalasinGrumiller.C
+++ b/lib/BalasinGrumiller.C
@@ -122,11 +122,11 @@ double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_
          + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
          + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
 
-  double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
-         1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-         + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+  double DWDth = (V0value_ * r * sin(theta) * (
+         - Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+         + Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+         + r0value_ / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+         - r0value_ / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
 
 
 dst[0][0][1] = dst[0][1][0] = (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
-- 
2.43.0


From 96ab2e6b9abd7e63df2f3e95582615d5dd60e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:29 +0000
Subject: [PATCH 006/105] fix: missing a00 term in
 KonoplyaRezzollaZhidenko::drN2()

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index f7f7c2f..4f6b23c 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -445,7 +445,7 @@ double KonoplyaRezzollaZhidenko::drN2(const double rr, const double th) const{
          k23 = DefineHorizonParameters(HorizonParameter::k23, r0);
          
   double drN2 = r0/rr2*(1.-epsilon0*r0/rr+(a00-epsilon0+k00)*r02/rr2+a01*r03/rr3)
-              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(k00-epsilon0)*r02/rr3-3.*a01*r03/rr4)
+              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(a00-epsilon0+k00)*r02/rr3-3.*a01*r03/rr4)
               -(2.*(k20+epsilon2)*r02/rr3
               +k21*k22*r04/rr5/((1.+(k23+k22)*(1.-r0/rr))*(1.+(k23+k22)*(1.-r0/rr)))
               +3.*(k21/(1.+k22*(1.-r0/rr)/(1.+k23*(1.-r0/rr)))+a20)*r03/rr4
-- 
2.43.0


From 2ce1a299fa14768f05d42ae44986130220bf71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:29 +0000
Subject: [PATCH 007/105] fix: KonoplyaRezzollaZhidenko copy constructor mixed
 up spin powers

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index 4f6b23c..a4b77a2 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -148,7 +148,7 @@ Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko()
 
 Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko(const KonoplyaRezzollaZhidenko & orig)
   : Generic(orig),
-    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin4_), spin4_(orig.spin4_),
+    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin3_), spin4_(orig.spin4_),
     rms_(orig.rms_), deltashorizon_(NULL), deltasasymptotics_(NULL)
 {
   GYOTO_DEBUG << endl;
-- 
2.43.0


From 56d2838e529d18646312dbe4a0c895ed29815817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:29 +0000
Subject: [PATCH 008/105] fix: RezzollaZhidenko copy constructor lost Rmb

---
 lib/RezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 7f01d9a..5de4427 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -100,7 +100,7 @@ Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko()
 
 Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko(const RezzollaZhidenko & orig)
   : Generic(orig),
-    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rms_), aparam_(NULL), bparam_(NULL)
+    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rmb_), aparam_(NULL), bparam_(NULL)
 {
   GYOTO_DEBUG << endl;
   aparam_ = new double[GYOTO_NBPARAM_MAX];
-- 
2.43.0


From fe9c6ac50b0dc1b065a9c79384fd1980510f362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:29 +0000
Subject: [PATCH 009/105] fix: matrix4Invert() used stale elements of the
 eliminated triangle

---
 lib/Utils.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Utils.C b/lib/Utils.C
index 0f4e500..429aa85 100644
--- a/lib/Utils.C
+++ b/lib/Utils.C
@@ -393,7 +393,8 @@ void Gyoto::matrix4Invert(double Am1[4][4], double const A[4][4]) {
   for (j=3; j>=0; --j) {
     for (jj = j-1; jj >= 0; --jj) {
       fact = tmp[j][jj];
-      for (i=0; i<4; ++i) tmp[i][jj] -= fact*tmp[i][j];
+      // elements i<j were not reset when eliminating the lower triangle
+      for (i=j; i<4; ++i) tmp[i][jj] -= fact*tmp[i][j];
       for (i=0; i<4; ++i) Am1[i][jj] -= fact*Am1[i][j];
     }
   }
-- 
2.43.0


From f0fd12af186034e533454889d8a3634018acf3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:13 +0000
Subject: [PATCH 010/105] fix: KerrKS::circularVelocity() ignored the spin

---
 lib/KerrKS.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KerrKS.C b/lib/KerrKS.C
index ee28cf9..17ed58d 100644
--- a/lib/KerrKS.C
+++ b/lib/KerrKS.C
@@ -271,7 +271,7 @@ void KerrKS::circularVelocity(double const coor[4], double vel[4],
   }
 
   double rcross=sqrt ( coor[1]*coor[1] + coor[2]*coor[2] - spin_*spin_);
-  double Omega=dir*pow(rcross*rcross*rcross, -0.5);//angular Keplerian velocity
+  double Omega=1./(dir*pow(rcross, 1.5) + spin_);//angular velocity
   
   vel[1] = -coor[2]*Omega;
   vel[2] =  coor[1]*Omega;
-- 
2.43.0


From b1d294623a8444fe00c4b4d34b312d1cdee83a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:13 +0000
Subject: [PATCH 011/105] fix: circularVelocity() ignored its direction in
 ChernSimons, (Konoplya)RezzollaZhidenko

---
 lib/ChernSimons.C              |  2 +-
 lib/KonoplyaRezzollaZhidenko.C | 17 ++++++++++-------
 lib/RezzollaZhidenko.C         |  5 ++---
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 7176b55..1faf716 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -319,7 +319,7 @@ void ChernSimons::circularVelocity(double const coor[4], double vel[4],
   // This is Omega_CS:
   vel[3] =
     (
-     aa*fact+56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
+     aa*fact+dir*56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
      )
     /
     (
diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index a4b77a2..ee48fd4 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -754,16 +754,19 @@ void KonoplyaRezzollaZhidenko::circularVelocity(double const coor[4], double vel
   GYOTO_DEBUG<<"coor=["<<coor[0]<<", "<<coor[1]<<", "<<coor[2]<<", "<<coor[3]
 	     <<"], dir="<<dir<<endl;
 # endif
-  double th = coor[2], sinth = sin(th), rr = coor[1]*sinth;// rr projected on equat plane // Irene: why?? 
-  double coord[4] = {coor[0],rr,M_PI*0.5,coor[3]};
-  double ell = KeplerianSpecificAngularMomentum(rr,th),
-         Omega = KeplerianAngularVelocity(rr,th,ell);
+  double rr = coor[1]*sin(coor[2]), th = M_PI*0.5, rr2 = rr*rr; // projection on equat plane
+  double NN2 = N2(rr, th), drNN2 = drN2(rr, th),
+         WW = W(rr, th), drWW = drW(rr, th),
+         KK2 = K2(rr, th), drKK2 = drK2(rr, th);
+  double drgtt = -((drNN2-2.*WW*drWW)*KK2-(NN2-WW*WW)*drKK2)/(KK2*KK2),
+         drgtp = -(drWW*rr+WW),
+         drgpp = drKK2*rr2+2.*KK2*rr;
+  double Omega = (-drgtp+dir*sqrt(drgtp*drgtp-drgtt*drgpp))/drgpp;
 
   vel[1] = vel[2] = 0.;
-  // In Kerr: vel[3] = 1./((dir*pow(coord[1], 1.5) + spin_)); // Irene: dir?? 
-  vel[3] = Omega; //sqrt(2./rr)*sqrt((drNN2-2.*WW*drWW-(NN2-WW2)*drKK2)/KK22); // this is Omega=dphi/dt
+  vel[3] = Omega; // this is Omega=dphi/dt
 
-  vel[0] = SysPrimeToTdot(coord, vel+1); // dt/dtau
+  vel[0] = SysPrimeToTdot(coor, vel+1); // dt/dtau
   vel[3] *= vel[0]; // dphi/dtau
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG_ARRAY(vel,4);
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 5de4427..6dfed4d 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -305,13 +305,12 @@ void RezzollaZhidenko::circularVelocity(double const coor[4], double vel[4],
 	     <<"], dir="<<dir<<endl;
 # endif
   double sinth = sin(coor[2]), rr = coor[1]*sinth;// rr projected on equat plane
-  double coord[4] = {coor[0],rr,M_PI*0.5,coor[3]};
 
   vel[1] = vel[2] = 0.;
   double Np = Nprime(rr), NN=sqrt(N2(rr));
-  vel[3] = sqrt(Np*NN/rr); // this is Omega=dphi/dt
+  vel[3] = dir*sqrt(Np*NN/rr); // this is Omega=dphi/dt
 
-  vel[0] = SysPrimeToTdot(coord, vel+1); // dt/dtau
+  vel[0] = SysPrimeToTdot(coor, vel+1); // dt/dtau
   vel[3] *= vel[0]; // dphi/dtau
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG_ARRAY(vel,4);
-- 
2.43.0


From 705226065a0a9753eb4ddb898b4ad409a1caffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:26 +0000
Subject: [PATCH 012/105] fix: KerrBL::getRms() for negative spin

---
 lib/KerrBL.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/KerrBL.C b/lib/KerrBL.C
index 211bc57..a7b7ee6 100644
--- a/lib/KerrBL.C
+++ b/lib/KerrBL.C
@@ -129,7 +129,8 @@ double KerrBL::getRms() const {
   double  z1 = 1. + pow((1. - a2_),1./3.)*(pow((1. + aa),1./3.) + pow((1. - aa),1./3.)); 
   double  z2 = pow(3.*a2_ + z1*z1,1./2.);
 
-  return (3. + z2 - pow((3. - z1)*(3. + z1 + 2.*z2),1./2.));
+  // like getRmb(): for motion in the +phi direction, whatever the spin sign
+  return (3. + z2 - (aa<0. ? -1. : 1.)*pow((3. - z1)*(3. + z1 + 2.*z2),1./2.));
 }
 
 //Prograde marginally bound orbit
-- 
2.43.0


From ac6ce068b231cbdfa724ad68e91bb3eaf4363d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 013/105] fix: Units::FromMeters() multiplied by c instead of
 dividing for time units

---
 lib/Converters.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Converters.C b/lib/Converters.C
index e2933e1..ca0ed9e 100644
--- a/lib/Converters.C
+++ b/lib/Converters.C
@@ -220,7 +220,7 @@ double Gyoto::Units::FromMeters(double val, const string &unit,
 # ifdef HAVE_UDUNITS
   Unit to (unit);
   if (areConvertible(to, *Meter)) return Meter->From(val, to);
-  if (areConvertible(to, *Second)) return Second->From(val*GYOTO_C, to);
+  if (areConvertible(to, *Second)) return Second->From(val/GYOTO_C, to);
   return FromHerz(GYOTO_C/val, unit);
 # else
   if (unit=="cm")          return val * 1e2;
-- 
2.43.0


From bb17e9ba00e9874b482fa078ba3e0621868c7c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 014/105] fix: Converter::reset() left a NULL converter behind
 when refusing a conversion

---
 lib/Converters.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Converters.C b/lib/Converters.C
index ca0ed9e..f16959f 100644
--- a/lib/Converters.C
+++ b/lib/Converters.C
@@ -160,6 +160,7 @@ void Converter::reset(const Gyoto::Units::Unit &from,
       stringstream ss;
       ss << "Unsupported conversion: from \"" << string(from)
 	 << "\" to " << string(to) << "\"";
+      reset();
       GYOTO_ERROR(ss.str());
     }
   } else reset();
-- 
2.43.0


From 46d38b5907505209ce74769696b2fb3981e8918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 015/105] fix: number of channel boundaries of
 Spectrometer::Uniform

The constructor with parameters left it to 0, and an empty spectrometer
claimed one boundary although it has no boundary array.
---
 lib/UniformSpectrometer.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index 2c711b0..2d76ca8 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -90,6 +90,7 @@ Uniform::Uniform(size_t nsamples, double band_min, double band_max, kind_t kin)
 : Generic(kin)
 {
   nsamples_=nsamples;
+  nboundaries_=nsamples_?nsamples_+1:0;
   band_[0]=band_min; band_[1]=band_max;
   if (nsamples && kin) reset_();
 }
@@ -204,7 +205,7 @@ std::string Uniform::kind() const {return Object::kind_;}
 
 void Uniform::nSamples(size_t n) {
   nsamples_ = n;
-  nboundaries_=nsamples_+1;
+  nboundaries_=nsamples_?nsamples_+1:0;
   reset_();
 }
 
-- 
2.43.0


From 2a723dc4e161e91216fa2a96330ed8ddb19a8bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 016/105] fix: Uniform::band(unit) getter for logarithmic
 spectrometers

---
 lib/UniformSpectrometer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index 2d76ca8..a4eb53c 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -237,7 +237,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_== FreqLogKind) {
     if (unit != "" && unit != "Hz")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromHerz(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromHerz(pow(10., vnu[i]), unit));
   } else if (kindid_== WaveKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
@@ -245,7 +245,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_ == WaveLogKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromMeters(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromMeters(pow(10., vnu[i]), unit));
   } else {
     GYOTO_ERROR("Uniform::band(string const &unit) at loss: "
 	       "please specify Spectrometer kind");
-- 
2.43.0


From 5c813b7d319ad079651fc893d837c8533042f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 017/105] fix: Uniform::kind() changed the name before refusing
 an unknown kind

---
 lib/UniformSpectrometer.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index a4eb53c..cc54bad 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -186,7 +186,6 @@ void Uniform::kindid(kind_t k) {
 }
 
 void Uniform::kind(std::string const &str) {
-  kind_ = str;
   kind_t s;
 
   if (str == "freq"   ) s = FreqKind;
@@ -197,6 +196,7 @@ void Uniform::kind(std::string const &str) {
     GYOTO_ERROR("unknown Spectrometer::Uniform kind"); s=NULL;
   }
 
+  kind_ = str;
   kindid_ = s;
   reset_();
 }
-- 
2.43.0


From f84c7d109080b02f90bca3480d4a49fac4e4cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 018/105] fix: Spectrometer::Complex hooks: unhook when
 destroyed, hook the clone's elements

An element that outlived its Complex spectrometer told the freed object;
the clone of a Complex was not told of the changes of its own elements.
Also free the array of elements and check its bounds.
---
 lib/ComplexSpectrometer.C | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/ComplexSpectrometer.C b/lib/ComplexSpectrometer.C
index bbe0207..ac34e5b 100644
--- a/lib/ComplexSpectrometer.C
+++ b/lib/ComplexSpectrometer.C
@@ -47,6 +47,7 @@ Complex::Complex(const Complex& o) :
     elements_ = new SmartPointer<Generic> [cardinal_];
     for (size_t i=0; i< cardinal_; ++i) {
       elements_[i] = o[i]->clone();
+      elements_[i]->hook(this);
     }
   }
 }
@@ -60,7 +61,11 @@ bool Complex::isThreadSafe() const {
 
 Complex::~Complex()
 {
-  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  for (size_t i=0; i< cardinal_; ++i) {
+    elements_[i]->unhook(this);
+    elements_[i] = NULL;
+  }
+  delete [] elements_;
 }
 
 void Complex::append(SmartPointer<Generic> e)
@@ -83,14 +88,14 @@ void Complex::append(SmartPointer<Generic> e)
 
 SmartPointer<Generic> & Complex::operator[](size_t i)
 {
-  if (i > cardinal_)
+  if (i >= cardinal_)
     GYOTO_ERROR("Complex::operator[](size_t i): no such element");
   return elements_[i];
 }
 
 SmartPointer<Generic> const & Complex::operator[](size_t i) const
 {
-  if (i > cardinal_)
+  if (i >= cardinal_)
     GYOTO_ERROR("Complex::operator[](size_t i): no such element");
   return elements_[i];
 }
-- 
2.43.0


From d7e2c39337c4ab288ac9324af8a25dd24d985e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:20 +0000
Subject: [PATCH 019/105] fix: don't memcpy() from NULL when copying an empty
 Spectrometer

---
 lib/Spectrometer.C | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/Spectrometer.C b/lib/Spectrometer.C
index d0bfd2d..46be33b 100644
--- a/lib/Spectrometer.C
+++ b/lib/Spectrometer.C
@@ -108,14 +108,22 @@ Generic::Generic(const Generic& o) :
   midpoints_(NULL),
   widths_(NULL)
 {
-  if (o.boundaries_) boundaries_=new double[nboundaries_];
-  memcpy(boundaries_, o.boundaries_, nboundaries_*sizeof(double));
-  if (o.widths_) widths_=new double[nsamples_];
-  memcpy(widths_, o.widths_, nsamples_*sizeof(double));
-  if (o.midpoints_) midpoints_=new double[nsamples_];
-  memcpy(midpoints_, o.midpoints_, nsamples_*sizeof(double));
-  if (o.chanind_) chanind_=new size_t[2*nsamples_];
-  memcpy(chanind_, o.chanind_, 2*nsamples_*sizeof(size_t));
+  if (o.boundaries_) {
+    boundaries_=new double[nboundaries_];
+    memcpy(boundaries_, o.boundaries_, nboundaries_*sizeof(double));
+  }
+  if (o.widths_) {
+    widths_=new double[nsamples_];
+    memcpy(widths_, o.widths_, nsamples_*sizeof(double));
+  }
+  if (o.midpoints_) {
+    midpoints_=new double[nsamples_];
+    memcpy(midpoints_, o.midpoints_, nsamples_*sizeof(double));
+  }
+  if (o.chanind_) {
+    chanind_=new size_t[2*nsamples_];
+    memcpy(chanind_, o.chanind_, 2*nsamples_*sizeof(size_t));
+  }
 }
 Generic::~Generic() {
   if (boundaries_) delete [] boundaries_;
-- 
2.43.0


From b29d9c811780df1fd3a78eabd7fe0f20c94a5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:14 +0000
Subject: [PATCH 020/105] fix: DynamicalDisk: clones lost the data, wrong
 delete, uninitialised arrays

The copy constructor reset the number of time steps to 0, so clones (as
used by every extra ray-tracing thread) had no data. The directory name
was freed with the wrong delete, and when file() failed half-way the
destructor freed uninitialised pointers.
---
 lib/DynamicalDisk.C | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/DynamicalDisk.C b/lib/DynamicalDisk.C
index d7e60f1..fe156fc 100644
--- a/lib/DynamicalDisk.C
+++ b/lib/DynamicalDisk.C
@@ -72,7 +72,7 @@ DynamicalDisk::DynamicalDisk(const DynamicalDisk& o) :
   dirname_(NULL),
   tinit_(o.tinit_),
   dt_(o.dt_),
-  nb_times_(0),
+  nb_times_(o.nb_times_),
   nnu_(o.nnu_), nphi_(o.nphi_), nr_(o.nr_),
   emission_array_(NULL),
   velocity_array_(NULL),
@@ -116,7 +116,7 @@ DynamicalDisk::~DynamicalDisk() {
   velocity_array_ = NULL;
   radius_array_   = NULL;
   nb_times_ = 0;
-  if (dirname_) delete dirname_;
+  if (dirname_) delete [] dirname_;
 }
 
 double const * DynamicalDisk::getVelocity() const { return PatternDiskBB::getVelocity(); }
@@ -221,7 +221,7 @@ void DynamicalDisk::file(std::string const &fname) {
       nb_times_ = 0;
     }
 
-    if (dirname_) delete dirname_;
+    if (dirname_) delete [] dirname_;
     dirname_ = new char[strlen(fname.c_str())+1];
     strcpy(dirname_,fname.c_str());
     DIR *dp;
@@ -248,9 +248,9 @@ void DynamicalDisk::file(std::string const &fname) {
     if (nb_times_<1) 
       GYOTO_ERROR("In DynamicalDisk.C: bad nb_times_ value");
     
-    emission_array_ = new double*[nb_times_] ;
-    velocity_array_ = new double*[nb_times_] ;
-    radius_array_ = new double*[nb_times_] ;
+    emission_array_ = new double*[nb_times_]() ;
+    velocity_array_ = new double*[nb_times_]() ;
+    radius_array_ = new double*[nb_times_]() ;
     
     for (size_t i=1; i<=nb_times_; i++) {
       ostringstream stream_name ;
-- 
2.43.0


From 526d8fb3c095fd1ee585f27431b16757457375ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:14 +0000
Subject: [PATCH 021/105] fix: DynamicalDisk3D::file() built a string from NULL

---
 lib/DynamicalDisk3D.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DynamicalDisk3D.C b/lib/DynamicalDisk3D.C
index b71d24c..458b3e3 100644
--- a/lib/DynamicalDisk3D.C
+++ b/lib/DynamicalDisk3D.C
@@ -600,7 +600,7 @@ void DynamicalDisk3D::file(std::string const &content) {
     GYOTO_ERROR("This Gyoto has no FITS i/o"); 
 #endif     
 }
-std::string DynamicalDisk3D::file() const {return dirname_;}
+std::string DynamicalDisk3D::file() const {return dirname_?dirname_:"";}
 
 void DynamicalDisk3D::tinit(double t) {tinit_=t;}
 double DynamicalDisk3D::tinit()const{return tinit_;}
-- 
2.43.0


From e2c75d7e29530a8bb3b1caf4e7d2ad71f52fa17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:14 +0000
Subject: [PATCH 022/105] fix: skip empty elements in
 Spectrometer::Complex::tell()

---
 lib/ComplexSpectrometer.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/ComplexSpectrometer.C b/lib/ComplexSpectrometer.C
index ac34e5b..9cc8251 100644
--- a/lib/ComplexSpectrometer.C
+++ b/lib/ComplexSpectrometer.C
@@ -178,6 +178,7 @@ void Complex::tell(Gyoto::Hook::Teller *) {
   for (size_t i=0; i<cardinal_; ++i) {
     size_t enb = elements_[i]->getNBoundaries();
     size_t ens = elements_[i]->nSamples();
+    if (!ens) continue;
     memcpy(boundaries_+boffset,
 	   elements_[i]->getChannelBoundaries(),
 	   enb*sizeof(double));
-- 
2.43.0


From dd4ced9c6e2401ac5731a9dec85dab66eafead24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:14 +0000
Subject: [PATCH 023/105] fix: Photon leaked its transmissions; copies had
 wrong ones

The destructor did not free the transmission arrays (a Photon::Refined
shares those of its parent). The copy constructor copied only the first
transmission matrix, and allocating the arrays reset the transmissions
at the observing frequency just copied.
---
 include/GyotoPhoton.h |  2 ++
 lib/Photon.C          | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/GyotoPhoton.h b/include/GyotoPhoton.h
index 86a1106..701e7bc 100644
--- a/include/GyotoPhoton.h
+++ b/include/GyotoPhoton.h
@@ -389,6 +389,8 @@ class Gyoto::Photon::Refined : public Gyoto::Photon {
  public:
   Refined(Photon *parent, size_t i, int dir, double step_max);
   ///< Constructor
+  virtual ~Refined();
+  ///< Destructor
   virtual void transmit(size_t i, double t);
   ///< Update transmission both in *this and in *parent_
   virtual void transmit(size_t i, Eigen::Matrix4d mat);
diff --git a/lib/Photon.C b/lib/Photon.C
index 1021a89..d39f0ff 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -85,10 +85,13 @@ Photon::Photon(const Photon& o) :
     _allocateTransmissionMatrix();
     if (size_t nsamples = spectro_->nSamples()){
       memcpy(transmission_, o.getTransmission(), nsamples*sizeof(double));
+      transmission_freqobs_ = o.transmission_freqobs_;
       // Eigen::Matrix4d has a non trivial constructor,
       // let's construct it normally with new, then copy
       _allocateTransmissionMatrix();
-      *transmissionMatrix_ = *(o.transmissionMatrix_);
+      transmissionMatrix_freqobs_ = o.transmissionMatrix_freqobs_;
+      for (size_t i=0; i<nsamples; ++i)
+	transmissionMatrix_[i] = o.transmissionMatrix_[i];
     }
   }
 }
@@ -157,7 +160,16 @@ Photon::Photon(SmartPointer<Metric::Generic> met,
   spectrometer(screen);
 }
 
-Photon::~Photon() {}
+Photon::~Photon() {
+  if (transmission_) delete [] transmission_;
+  if (transmissionMatrix_) delete [] transmissionMatrix_;
+}
+
+Photon::Refined::~Refined() {
+  // these are owned by the parent
+  transmission_ = NULL;
+  transmissionMatrix_ = NULL;
+}
 
 /* TRANSMISSION STUFF */
 void Photon::_allocateTransmission() {
-- 
2.43.0


From 47506eb85436d4ce174f443bfa31e4966adb02b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:50 +0000
Subject: [PATCH 024/105] fix: Blob::timeRef() and timeSigma() could not be
 read in geometrical units

---
 lib/Blob.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Blob.C b/lib/Blob.C
index 7c154d1..a260954 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -286,7 +286,7 @@ double Blob::timeRef(string const &unit) const
   double tt = timeRef();
   if (unit != "") {
 # ifdef HAVE_UDUNITS
-    tt = Units::Converter("s", unit)(tt);
+    tt = Units::FromSeconds(tt, unit, gg_);
 # else
     GYOTO_WARNING << "Units ignored, please recompile Gyoto with --with-udunits"
 		  << endl ;
@@ -335,7 +335,7 @@ double Blob::timeSigma(string const &unit) const
   double tt = timeSigma();
   if (unit != "") {
 # ifdef HAVE_UDUNITS
-    tt = Units::Converter("s", unit)(tt);
+    tt = Units::FromSeconds(tt, unit, gg_);
 # else
     GYOTO_WARNING << "Units ignored, please recompile Gyoto with --with-udunits"
 		  << endl ;
-- 
2.43.0


From ff271ce4133a851ef454a8ce4937e5d0d8db1210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 025/105] fix: Value: text that is not a number raised a
 standard exception instead of a Gyoto::Error

---
 lib/Value.C | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/Value.C b/lib/Value.C
index 82e5dc4..490ad7f 100644
--- a/lib/Value.C
+++ b/lib/Value.C
@@ -24,11 +24,20 @@
 #include "GyotoScreen.h"
 #include "GyotoProperty.h"
 #include <iostream>
+#include <stdexcept>
 using namespace Gyoto ;
 using namespace std ;
 
 /// Value
 
+// Return the result of a std::sto*() call, turning its exceptions
+// (std::invalid_argument and std::out_of_range) into Gyoto errors.
+#define ___local_parse(expr)						\
+  try { return expr; }							\
+  catch (const std::logic_error&) {					\
+    GYOTO_ERROR("This string does not look like a number in range: '" + String + "'"); \
+  }
+
 #define INIT_MEMBERS				\
     Double(0.),					\
     Bool(false),				\
@@ -109,12 +118,7 @@ Value::operator double() const {
     if (String=="-DBL_MAX") return -DBL_MAX;
     if (String== "DBL_MIN") return  DBL_MIN;
     if (String=="-DBL_MIN") return -DBL_MIN;
-    try {
-	return stod(String);
-    }
-    catch (const std::invalid_argument& e) {
-      GYOTO_ERROR("This string does not look like a double: '" + String + "'");
-    }
+    ___local_parse(stod(String));
   default:
     GYOTO_ERROR("This Value cannot be cast to double");
   }
@@ -130,7 +134,7 @@ Value::operator long() const {
   case Property::size_t_t:
     return long(SizeT);
   case Property::string_t:
-    return stol(String);
+    ___local_parse(stol(String));
   default:
     GYOTO_ERROR("This Value does not hold a long (or unsigned long)");
   }
@@ -146,7 +150,7 @@ Value::operator unsigned long() const {
   case Property::size_t_t:
     return (unsigned long)(SizeT);
   case Property::string_t:
-    return stoul(String);
+    ___local_parse(stoul(String));
   default:
     GYOTO_ERROR("This Value does not hold a long (or unsigned long)");
   }
@@ -163,7 +167,7 @@ Value::operator size_t() const {
   case Property::size_t_t:
     return SizeT;
   case Property::string_t:
-    return size_t(stoul(String));
+    ___local_parse(size_t(stoul(String)));
   default:
     GYOTO_ERROR("This Value does not hold a long (or unsigned long)");
   }
@@ -182,7 +186,7 @@ Value::operator bool() const {
   case Property::size_t_t:
     return bool(SizeT);
   case Property::string_t:
-    return bool(stoi(String));
+    ___local_parse(bool(stoi(String)));
   default:
     GYOTO_ERROR("This Value does not hold an integer");
   }
-- 
2.43.0


From 1e6bb9cd4647529faf5900bc8ac26eb1f7698cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 026/105] fix: name of the runge_kutta_cash_karp54_classic
 integrator

---
 lib/WorldlineIntegState.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index b89290a..dcc9d6d 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -423,7 +423,7 @@ std::string Worldline::IntegState::Boost::kind() {
   if (kind_== Kind::runge_kutta_cash_karp54) return "runge_kutta_cash_karp54";
   if (kind_== Kind::runge_kutta_fehlberg78) return "runge_kutta_fehlberg78";
   if (kind_== Kind::runge_kutta_dopri5) return "runge_kutta_dopri5";
-  if (kind_== Kind::runge_kutta_cash_karp54_classic) return "runge_kutta_cash_karp5";
+  if (kind_== Kind::runge_kutta_cash_karp54_classic) return "runge_kutta_cash_karp54_classic";
   GYOTO_ERROR("unknown enum value");
   return "error";
 } 
-- 
2.43.0


From f3893afd61634e09c9f7289072883846fe600e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 027/105] fix: DirectionalDisk::lampcutoffsinev() returned
 frequencies in Hz instead of eV

---
 lib/DirectionalDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DirectionalDisk.C b/lib/DirectionalDisk.C
index 4a4015a..d3686c6 100644
--- a/lib/DirectionalDisk.C
+++ b/lib/DirectionalDisk.C
@@ -252,7 +252,7 @@ void DirectionalDisk::lampcutoffsinev(std::vector<double> const &v) {
 
 std::vector<double> DirectionalDisk::lampcutoffsinev() const {
   std::vector<double> v (2, 0.);
-  v[0]=minfreq_lampframe_; v[1]=maxfreq_lampframe_;
+  v[0]=minfreq_lampframe_/GYOTO_eV2Hz; v[1]=maxfreq_lampframe_/GYOTO_eV2Hz;
   return v;
 }
 
-- 
2.43.0


From a22b63e689db6db81a08931b1d3d109b767fe5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 028/105] fix: FreeStar and Plasmoid read initial conditions
 past the end of a short vector

---
 lib/FreeStar.C | 6 ++++++
 lib/Plasmoid.C | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/FreeStar.C b/lib/FreeStar.C
index f2f225d..af3892f 100644
--- a/lib/FreeStar.C
+++ b/lib/FreeStar.C
@@ -91,6 +91,8 @@ string FreeStar::className_l() const { return  string("freeStar"); }
 
 
 void FreeStar::initPosition(std::vector<double> const &v) {
+  if (v.size()!=4)
+    GYOTO_ERROR("In FreeStar::initPosition: position must have 4 components");
   posIni_[0] = v[0];
   posIni_[1] = v[1];
   posIni_[2] = v[2];
@@ -110,6 +112,8 @@ std::vector<double> FreeStar::initPosition() const {
 void FreeStar::initVelocity(std::vector<double> const &v) {
   if (!posSet_)
     GYOTO_ERROR("In FreeStar::initVelocity initial Position not defined");
+  if (v.size()!=3)
+    GYOTO_ERROR("In FreeStar::initVelocity: velocity must have 3 components");
   fourveldt_[1] = v[0];
   fourveldt_[2] = v[1];
   fourveldt_[3] = v[2];
@@ -141,6 +145,8 @@ std::vector<double> FreeStar::initVelocity() const {
 }
 
 void FreeStar::initCoord(std::vector<double> const &v) {
+  if (v.size()!=8)
+    GYOTO_ERROR("In FreeStar::initCoord: coordinates must have 8 components");
   posIni_[0] = v[0];
   posIni_[1] = v[1];
   posIni_[2] = v[2];
diff --git a/lib/Plasmoid.C b/lib/Plasmoid.C
index 3c977c2..ed2f5be 100644
--- a/lib/Plasmoid.C
+++ b/lib/Plasmoid.C
@@ -462,6 +462,8 @@ void Plasmoid::metric(SmartPointer<Metric::Generic> gg) {
 }
 
 void Plasmoid::initPosition(std::vector<double> const &v) {
+  if (v.size()!=4)
+    GYOTO_ERROR("In Plasmoid::initPosition: position must have 4 components");
   posIni_[0] = v[0];
   posIni_[1] = v[1];
   posIni_[2] = v[2];
@@ -481,6 +483,8 @@ std::vector<double> Plasmoid::initPosition() const {
 void Plasmoid::initVelocity(std::vector<double> const &v) {
   if (!posSet_)
   	GYOTO_ERROR("In Plasmoid::initVelocity initial Position not defined");
+  if (v.size()!=3)
+    GYOTO_ERROR("In Plasmoid::initVelocity: velocity must have 3 components");
   fourveldt_[1] = v[0];
   fourveldt_[2] = v[1];
   fourveldt_[3] = v[2];
@@ -510,6 +514,8 @@ std::vector<double> Plasmoid::initVelocity() const {
 }
 
 void Plasmoid::initCoord(std::vector<double> const &v) {
+  if (v.size()!=8)
+    GYOTO_ERROR("In Plasmoid::initCoord: coordinates must have 8 components");
   posIni_[0] = v[0];
   posIni_[1] = v[1];
   posIni_[2] = v[2];
-- 
2.43.0


From 89ce768ab5835bf68aa2358003d6a37962884a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 029/105] fix: Scenery::requestedQuantitiesString() modified
 its constant argument

---
 lib/Scenery.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 82a8fbd..ec7856a 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -815,7 +815,9 @@ void Scenery::setRequestedQuantities(Gyoto::Quantity_t quant) {
 }
 void Scenery::requestedQuantitiesString(std::string const &squant) {
   quantities_=0;
-  char * tk = strtok(const_cast<char*>(squant.c_str()), " \t\n");
+  // strtok() writes in its argument: work on a copy
+  std::string squantcopy(squant);
+  char * tk = strtok(&squantcopy[0], " \t\n");
   string tkk="", quant="", unit = "";
   size_t first = 0, last = 0;
 
-- 
2.43.0


From 27b96e35c8a3cdf0c2df4257a6914ead3f7cdde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:33 +0000
Subject: [PATCH 030/105] fix: PolishDoughnut ignored <ADAF/> without content

---
 lib/PolishDoughnut.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/PolishDoughnut.C b/lib/PolishDoughnut.C
index 5f7c8c3..6332949 100644
--- a/lib/PolishDoughnut.C
+++ b/lib/PolishDoughnut.C
@@ -435,8 +435,10 @@ void PolishDoughnut::setParameter(Property const &p,
   // ADAFParameters was in ADAF
   if (name=="ADAF") {
     std::vector<double> v=FactoryMessenger::parseArray(content);
-    if (v.size()) adafparams(v);
-    return ;
+    if (v.size()) {
+      adafparams(v);
+      return ;
+    }
   }
   Standard::setParameter(p, name, content, unit);
 }
-- 
2.43.0


From 7fc396f1414e2b6245770ce71495a64d97b7d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:25 +0000
Subject: [PATCH 031/105] fix: FreeStar: InitVelocity read back as dxi/dtau,
 uninitialised and leaked initial conditions

---
 lib/FreeStar.C | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/FreeStar.C b/lib/FreeStar.C
index af3892f..67bf218 100644
--- a/lib/FreeStar.C
+++ b/lib/FreeStar.C
@@ -57,8 +57,9 @@ FreeStar::FreeStar() :
   GYOTO_DEBUG << "done." << endl;
 # endif
 
-  posIni_= new double[4];
-  fourveldt_= new double[4];
+  posIni_= new double[4]();
+  fourveldt_= new double[4]();
+  fourveldt_[0]=1.;
 }
 
 FreeStar::FreeStar(const FreeStar& orig) :
@@ -84,6 +85,8 @@ FreeStar* FreeStar::clone() const { return new FreeStar(*this); }
 
 FreeStar::~FreeStar() {
   if (debug()) cerr << "DEBUG: FreeStar::~FreeStar()\n";
+  delete [] posIni_;
+  delete [] fourveldt_;
 }
 
 string FreeStar::className() const { return  string("FreeStar"); }
@@ -138,9 +141,10 @@ void FreeStar::initVelocity(std::vector<double> const &v) {
 
 std::vector<double> FreeStar::initVelocity() const {
   std::vector<double> v (3, 0.);
-  v[0] = fourveldt_[1];
-  v[1] = fourveldt_[2];
-  v[2] = fourveldt_[3];
+  // fourveldt_ is normalized: convert back to dxi/dt
+  v[0] = fourveldt_[1]/fourveldt_[0];
+  v[1] = fourveldt_[2]/fourveldt_[0];
+  v[2] = fourveldt_[3]/fourveldt_[0];
   return v;
 }
 
-- 
2.43.0


From 95243dc57b95258b1ced992e796b5f0ba1f82749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:13 +0000
Subject: [PATCH 032/105] fix: BlackBody color correction was compounded in the
 temperature each time it was set

---
 lib/BlackBodySpectrum.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/BlackBodySpectrum.C b/lib/BlackBodySpectrum.C
index bbd2f35..bcacf62 100644
--- a/lib/BlackBodySpectrum.C
+++ b/lib/BlackBodySpectrum.C
@@ -49,12 +49,12 @@ Spectrum::BlackBody * Spectrum::BlackBody::clone() const
 { return new Spectrum::BlackBody(*this); }
 
 double Spectrum::BlackBody::temperature() const { return T_; }
-void Spectrum::BlackBody::temperature(double c) { T_ = c; Tm1_=1./T_; }
+void Spectrum::BlackBody::temperature(double c) { T_ = c; Tm1_=1./(T_*colorcor_); }
 double Spectrum::BlackBody::scaling() const { return cst_; }
 void Spectrum::BlackBody::scaling(double c) { cst_ = c; }
 double Spectrum::BlackBody::colorCorrection() const { return colorcor_; }
 void Spectrum::BlackBody::colorCorrection(double c) {
-  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); T_*=c; Tm1_/=c;}
+  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); Tm1_=1./(T_*colorcor_);}
 
 double Spectrum::BlackBody::operator()(double nu) const {
   return  colorcorm4_*cst_*nu*nu*nu
-- 
2.43.0


From 3f548d3322ab518286cf2263eaf224b2282a8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 033/105] fix: Screen: scale Dangle1/Dangle2 with the field and
 not the azimuth when the camera is transported to dmax

---
 lib/Screen.C | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index 9fd6825..eceed55 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -552,6 +552,7 @@ void Screen::getRayTriad(double angle1, double angle2,
   getObserverPos(coord);
 
   double robs = distance_ / gg_->unitLength();
+  double dangle1 = dangle1_, dangle2 = dangle2_;
 
   if (robs > dmax_) {
     // scale
@@ -570,7 +571,12 @@ void Screen::getRayTriad(double angle1, double angle2,
       throwError("Unimplemented coordkind");
     }
     angle1 *= scale;
-    angle2 *= scale;
+    dangle1 *= scale;
+    if (anglekind_ != spherical_angles) {
+      // for spherical angles, the second one is an azimuth: not to be scaled
+      angle2 *= scale;
+      dangle2 *= scale;
+    }
   }
 
   coord[4]=coord[5]=coord[6]=coord[7]=0.;//initializing 4-velocity
@@ -583,8 +589,8 @@ void Screen::getRayTriad(double angle1, double angle2,
       GYOTO screen labelled by spherical
       angles a and b (see Fig. in user guide)
      */
-    spherical_angle_a = angle1+dangle1_;
-    spherical_angle_b = angle2+dangle2_;
+    spherical_angle_a = angle1+dangle1;
+    spherical_angle_b = angle2+dangle2;
     break;
   case rectilinear:
     spherical_angle_a = atan(sqrt(angle1*angle1+angle2*angle2));
@@ -665,11 +671,11 @@ void Screen::getRayTriad(double angle1, double angle2,
 		 -cos(spherical_angle_a)};
   if (anglekind_ != spherical_angles) {
     // Rotate around Y by dangle1, then around new X by dangle2
-    double c, s; sincos(dangle1_, &s, &c);
+    double c, s; sincos(dangle1, &s, &c);
     double vel_rot[3]={c*vel[0]+s*vel[2],
 		       vel[1],
 		       -s*vel[0]+c*vel[2]};
-    sincos(dangle2_, &s, &c);
+    sincos(dangle2, &s, &c);
     vel[0]=vel_rot[0];
     vel[1]=c*vel_rot[1]-s*vel_rot[2];
     vel[2]=s*vel_rot[1]+c*vel_rot[2];
-- 
2.43.0


From b8141f67e51ef3822eebc43f4823bcf7a4f4e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:06 +0000
Subject: [PATCH 034/105] fix: Screen: rotate the polarisation basis by
 Dangle1/Dangle2 together with the ray

---
 lib/Screen.C | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Screen.C b/lib/Screen.C
index eceed55..a01b0bc 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -814,6 +814,19 @@ void Screen::getRayTriad(double angle1, double angle2,
     double co, so; sincos(euler_[0], &so, &co); // changing name from p (for paln) to o (for Omega) to not confuse with phi
     double Ephi_screenBasis[3] = {-sb*sb*(1-ca)-ca, sb*cb*(1-ca), cb*sa};
     double Etheta_screenBasis[3] = {-sb*cb*(1-ca), (cb*cb*(1-ca)+ca), -sb*sa};
+    if (anglekind_ != spherical_angles) {
+      // Rotate the basis like the photon direction
+      double c1, s1; sincos(dangle1, &s1, &c1);
+      double c2, s2; sincos(dangle2, &s2, &c2);
+      double * const basis[2]={Ephi_screenBasis, Etheta_screenBasis};
+      for (i=0; i<2; ++i) {
+	double * const e = basis[i];
+	const double e0= c1*e[0]+s1*e[2], e2=-s1*e[0]+c1*e[2], e1=e[1];
+	e[0]=e0;
+	e[1]=c2*e1-s2*e2;
+	e[2]=s2*e1+c2*e2;
+      }
+    }
     if (observerkind_==GYOTO_OBSKIND_ATINFINITY){
       switch (gg_ -> coordKind()) {
       case GYOTO_COORDKIND_SPHERICAL:
-- 
2.43.0


From defc2ed088c40e7cc55ad4967d5169d726566c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:16 +0000
Subject: [PATCH 035/105] fix: PatternDisk copy read past the end of the radius
 array

---
 lib/PatternDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 367bc5a..8ada8ad 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -96,7 +96,7 @@ PatternDisk::PatternDisk(const PatternDisk& o) :
     memcpy(velocity_, o.velocity_, ncells * sizeof(double));
   }
   if (o.radius_) {
-    radius_ = new double[ncells = 2 * nphi_ * nr_];
+    radius_ = new double[ncells = nr_];
     memcpy(radius_, o.radius_, ncells * sizeof(double));
   }
 }
-- 
2.43.0


From b7d29e3fbd7c533f5e5dade6431b52fb508caf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:16 +0000
Subject: [PATCH 036/105] fix: a clone of Metric::Shift shared its underlying
 metric with the original

---
 include/GyotoShift.h | 1 +
 lib/Shift.C          | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/GyotoShift.h b/include/GyotoShift.h
index 184d6c2..52c8779 100644
--- a/include/GyotoShift.h
+++ b/include/GyotoShift.h
@@ -55,6 +55,7 @@ class Gyoto::Metric::Shift
   // This is the bare minimum of what a Metric class must implement:
   GYOTO_OBJECT;
   Shift();
+  Shift(const Shift &);
   virtual ~Shift();
   virtual Shift* clone() const ;
 
diff --git a/lib/Shift.C b/lib/Shift.C
index 7d7c006..4dbbae6 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -54,6 +54,15 @@ Shift::Shift() :
 Generic(GYOTO_COORDKIND_CARTESIAN, "Shift"),
   submet_(NULL)
 {for (int i=0; i<4; ++i) offset_[i]=0.;}
+Shift::Shift(const Shift &o) :
+  Generic(o), Hook::Listener(o), submet_(NULL)
+{
+  for (int i=0; i<4; ++i) offset_[i]=o.offset_[i];
+  if (o.submet_()) {
+    submet_=o.submet_->clone();
+    submet_->hook(this);
+  }
+}
 Shift* Shift::clone() const { return new Shift(*this); }
 Shift::~Shift(){
   if (submet_) submet_->unhook(this);
-- 
2.43.0


From b381669ecf32ac81babf468ae96c5bddd521bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:16 +0000
Subject: [PATCH 037/105] fix: Integ31 was lost when cloning a Worldline or
 setting its Integrator

---
 lib/Worldline.C           |  2 ++
 lib/WorldlineIntegState.C | 12 ++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index aa5fd53..20bc6d7 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -372,12 +372,14 @@ void Worldline::tell(Gyoto::Hook::Teller* msg) {
 }
 
 void Worldline::integrator(std::string const &type) {
+  bool integ = state_ ? state_->integ31() : false;
   if (type=="Legacy") state_ = new IntegState::Legacy(this);
 #ifdef GYOTO_HAVE_BOOST_INTEGRATORS
   else state_ = new IntegState::Boost(this, type);
 #else
   else GYOTO_ERROR("unrecognized integrator (recompile with boost?)");
 #endif
+  state_->integ31(integ);
 }
 
 std::string Worldline::integrator() const {
diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index dcc9d6d..4dee460 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -119,7 +119,11 @@ Worldline::IntegState::Legacy::Legacy(Worldline *parent) : Generic(parent)
 
 Worldline::IntegState::Legacy *
 Worldline::IntegState::Legacy::clone(Worldline *newparent) const
-{ return new Legacy(newparent); }
+{
+  Legacy * res = new Legacy(newparent);
+  res->integ_31_ = integ_31_;
+  return res;
+}
 
 void
 Worldline::IntegState::Legacy::init(Worldline * line,
@@ -234,7 +238,11 @@ void Worldline::IntegState::Boost::init()
 
 Worldline::IntegState::Boost *
 Worldline::IntegState::Boost::clone(Worldline*newparent) const
-{ return new Boost(newparent, kind_); }
+{
+  Boost * res = new Boost(newparent, kind_);
+  res->integ_31_ = integ_31_;
+  return res;
+}
 
 
 
-- 
2.43.0


From 587a2a35d3b751d5dada8fbbbb3c608d38cf6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:16 +0000
Subject: [PATCH 038/105] fix: setting the Metric or Position of a FixedStar
 (hence cloning a Photon) reset its SafetyValue

---
 lib/FixedStar.C | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/FixedStar.C b/lib/FixedStar.C
index 81f88d8..f498f13 100644
--- a/lib/FixedStar.C
+++ b/lib/FixedStar.C
@@ -141,7 +141,6 @@ void FixedStar::metric(SmartPointer<Metric::Generic> gg) {
   GYOTO_DEBUG << endl;
 # endif
  Generic::metric(gg);
- radius(radius_);
 }
 
 void FixedStar::radius(double r) {
@@ -174,14 +173,13 @@ double FixedStar::rMax() {
 }
 
 void FixedStar::setPos(const double p[3])
-{ for (int i=0; i<3; ++i) pos_[i]=p[i]; radius(radius_);}
+{ for (int i=0; i<3; ++i) pos_[i]=p[i];}
 
 void FixedStar::position(std::vector<double> const &v) {
   GYOTO_DEBUG_EXPR(v.size());
   if (v.size() !=3)
     GYOTO_ERROR("FixedStar position needs exactly 3 tokens"); 
   for (int i=0; i<3; ++i) pos_[i]=v[i];
-  radius(radius_);
 }
 
 std::vector<double> FixedStar::position() const {
-- 
2.43.0


From 3f8a0357eee14ec36499f77b3138b71bef37ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:16 +0000
Subject: [PATCH 039/105] fix: FixedStar and Torus kept the RMax of their first
 ray-tracing when changed afterwards

---
 lib/FixedStar.C     | 6 ++----
 lib/Torus.C         | 2 +-
 lib/UniformSphere.C | 3 ++-
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/FixedStar.C b/lib/FixedStar.C
index f498f13..f70d135 100644
--- a/lib/FixedStar.C
+++ b/lib/FixedStar.C
@@ -160,11 +160,9 @@ double FixedStar::rMax() {
   if (rmax_==DBL_MAX) {
     switch (gg_ -> coordKind()) {
     case GYOTO_COORDKIND_SPHERICAL:
-      rmax_=3.*(pos_[0]+radius_);
-      break;
+      return 3.*(pos_[0]+radius_);
     case GYOTO_COORDKIND_CARTESIAN:
-      rmax_=3.*(sqrt(pos_[0]*pos_[0]+pos_[1]*pos_[1]+pos_[2]*pos_[2])+radius_);
-      break;
+      return 3.*(sqrt(pos_[0]*pos_[0]+pos_[1]*pos_[1]+pos_[2]*pos_[2])+radius_);
     default:
       GYOTO_ERROR("unimplemented coordinate system in FixedStar");
     } 
diff --git a/lib/Torus.C b/lib/Torus.C
index f28dfe5..9d8c5e4 100644
--- a/lib/Torus.C
+++ b/lib/Torus.C
@@ -100,7 +100,7 @@ void Torus::opacity(SmartPointer<Spectrum::Generic> sp) {opacity_=sp;}
 
 double Torus::rMax() {
   if (rmax_==DBL_MAX) {
-    rmax_ = 3.*(c_+sqrt(critical_value_));
+    return 3.*(c_+sqrt(critical_value_));
   }
   return rmax_ ;
 }
diff --git a/lib/UniformSphere.C b/lib/UniformSphere.C
index ae66837..355ed97 100644
--- a/lib/UniformSphere.C
+++ b/lib/UniformSphere.C
@@ -204,7 +204,8 @@ double UniformSphere::deltaMax(double * coord) {
     r=0.;
     GYOTO_ERROR("unsupported coordkind");
   }
-  if (rmax_!=DBL_MAX && r>rmax_) return r*0.5; 
+  double rmax=rMax();
+  if (rmax!=DBL_MAX && r>rmax) return r*0.5; 
   return max(dltmod_*sqrt((*this)(coord)), dltmor_*radius_);
 }
 
-- 
2.43.0


From 508b9b407e6fad9dbd343c559612bf78c5693e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:59 +0000
Subject: [PATCH 040/105] fix: the clone of a Worldline ignored changes of its
 own metric

---
 lib/Worldline.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 20bc6d7..0ef0f09 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -90,6 +90,7 @@ Worldline::Worldline(const Worldline& orig) :
     GYOTO_DEBUG << "cloning metric\n";
 #   endif
     metric_=orig.metric_->clone();
+    metric_->hook(this);
   }
 
   state_ = orig.state_->clone(this);
-- 
2.43.0


From 271f61b8aab96095e00cbce36b56d63fc95838e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 041/105] fix: Factory::screen() could not read a document
 whose root is a Screen

---
 lib/Factory.C | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/Factory.C b/lib/Factory.C
index a41deb0..d2c06b5 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -507,24 +507,27 @@ SmartPointer<Scenery> Factory::scenery () {
 
 SmartPointer<Gyoto::Screen> Factory::screen(){
   if (!screen_) {
-    DOMXPathResult* result;
     DOMElement *ScreenDOM;
-    result=doc_->evaluate(
+    if (kind_=="Screen") {
+      ScreenDOM = root_;
+    } else {
+      DOMXPathResult* result;
+      result=doc_->evaluate(
 			  X(("/"+kind_+"/Screen").c_str()),
 			  root_,
 			  resolver_,
 			  DOMXPathResult::ORDERED_NODE_SNAPSHOT_TYPE,
 			  NULL);
-    if (!result->getSnapshotLength()) {
+      if (!result->getSnapshotLength()) {
+	delete result;
+	return NULL;
+      }
+      ScreenDOM = static_cast< xercesc::DOMElement* >(result -> getNodeValue());
       delete result;
-      return NULL;
     }
-    
-    ScreenDOM = static_cast< xercesc::DOMElement* >(result -> getNodeValue());
-    
+
     FactoryMessenger fm ( this, ScreenDOM );
     screen_ = Screen::Subcontractor(&fm);
-    delete result;
   }
   return screen_;
 }
-- 
2.43.0


From 878d3be3d9957b9aad30cc40ab20fc2b173d30fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 042/105] fix: DBL_MAX in a vector Property was written to XML
 as a number that reads back as infinity

---
 lib/Factory.C | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Factory.C b/lib/Factory.C
index d2c06b5..54a95a4 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -859,10 +859,11 @@ void Factory::setParameter(std::string name,
 
   if (n) {
     ostringstream ss;
-    ss.imbue(Cloc); // set local to 'C'
-    ss << setprecision(GYOTO_PREC) << setw(GYOTO_WIDTH) << val[0];
-    for (size_t i=1; i<n; ++i) {
-      ss << " " << setprecision(GYOTO_PREC) << setw(GYOTO_WIDTH) << val[i];
+    char txt[dvalLength+GYOTO_WIDTH];
+    for (size_t i=0; i<n; ++i) {
+      d2txt(txt, val[i]);
+      if (i) ss << " ";
+      ss << txt;
     }
     el->appendChild( doc_->createTextNode(X(ss.str().c_str())) );
   }
-- 
2.43.0


From ab64d43f11a41c0d17f5e3d97bdd1afed644c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 043/105] fix: the metric of a Photon with an Astrobj was
 written where Factory does not look for it

---
 lib/Factory.C | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Factory.C b/lib/Factory.C
index 54a95a4..e21c4cc 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -677,15 +677,16 @@ Factory::Factory(SmartPointer<Spectrometer::Generic> sp)
 
 }
 
-void Factory::metric(SmartPointer<Metric::Generic> gg, DOMElement *el) {
+void Factory::metric(SmartPointer<Metric::Generic> gg, DOMElement * /* el */) {
   if (!gg && !gg_) return;
   if (gg_ && gg && gg!= gg_) GYOTO_ERROR("Inconsistent use of Metrics");
   if (gg && !gg_el_) {
   
     gg_ = gg;
 
+    // The reader looks for the Metric below the root element
     gg_el_ = doc_->createElement(X("Metric"));
-    el->appendChild(gg_el_);
+    root_->appendChild(gg_el_);
 
     FactoryMessenger fm(this, gg_el_);
     gg -> fillElement(&fm);
-- 
2.43.0


From d233f13a1be2876f4ac61962c5282c1566375b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 044/105] fix: a Complex Astrobj saved with its metric could
 not be read back

---
 lib/ComplexAstrobj.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/ComplexAstrobj.C b/lib/ComplexAstrobj.C
index 62dbd25..1dbba18 100644
--- a/lib/ComplexAstrobj.C
+++ b/lib/ComplexAstrobj.C
@@ -213,7 +213,8 @@ void Complex::setParameters(FactoryMessenger *fmp) {
       child   = fmp -> getChild();
       append ((*Astrobj::getSubcontractor(content, plugin))(child, plugin));
       delete child;
-    } else setParameter(name, content, unit);
+    } else if (name=="Metric") continue; // already set above
+    else setParameter(name, content, unit);
   }
 
   if (debug())
-- 
2.43.0


From e022c02640e4b59a2c73d33bd4215ccd7d42d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 045/105] fix: objects without a data file wrote an empty file
 name to XML, which could not be read back

---
 lib/Object.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Object.C b/lib/Object.C
index 97ff279..9c67f9c 100644
--- a/lib/Object.C
+++ b/lib/Object.C
@@ -355,9 +355,14 @@ void Object::fillProperty(Gyoto::FactoryMessenger *fmp, Property const &p) const
     fmp->setParameter(name, double(get(p)));
     break;
   case Property::string_t:
-  case Property::filename_t:
     fmp->setParameter(name, std::string(get(p)));
     break;
+  case Property::filename_t:
+    {
+      std::string fname=get(p);
+      if (fname!="") fmp->setParameter(name, fname); // don't write an unset file name
+    }
+    break;
   case Property::vector_double_t:
     fmp->setParameter(name, get(p).operator std::vector<double>());
     break;
-- 
2.43.0


From 5260eb0ec944cfefa20372e50d0d3b5e4e3e5698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 046/105] fix: StochasticThinDisk refused its default
 MotionKind, "Static"

---
 lib/StochasticThinDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/StochasticThinDisk.C b/lib/StochasticThinDisk.C
index da8a40b..1312ed4 100644
--- a/lib/StochasticThinDisk.C
+++ b/lib/StochasticThinDisk.C
@@ -92,7 +92,7 @@ string StochasticThinDisk::equationKind() const {
 void StochasticThinDisk::motionKind(string const &kind) {
   if (kind == "Static")
     motionkind_ = STATIC;
-  if (kind == "Circular")
+  else if (kind == "Circular")
     motionkind_ = CIRCULAR;
   else if (kind == "Radial")
     motionkind_ = RADIAL;
-- 
2.43.0


From d4cc744b5c1e39169fe8dffffe8d54e0b4c1d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 047/105] fix: KonoplyaRezzollaZhidenko with null spin could
 not be read back from its own XML

---
 lib/KonoplyaRezzollaZhidenko.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index ee48fd4..1bdf3a4 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -57,13 +57,18 @@ GYOTO_PROPERTY_END(KonoplyaRezzollaZhidenko, Generic::properties)
 GYOTO_PROPERTY_ACCESSORS(KonoplyaRezzollaZhidenko, double, rms_, rms)
 
 void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
-  if (spin_ == 0.) GYOTO_ERROR("null spin case not supported");
   size_t n = v.size();
   if (n>GYOTO_NB_DELTAHOR_MAX)
     GYOTO_ERROR("In KonoplyaRezzollaZhidenko: choose at most "
 	       TOSTRING(GYOTO_NB_DELTAHOR_MAX) " horizon parameters");
   size_t nonzero_count = 0;
   for (double val : v) { if (val!=0.) ++nonzero_count;}
+  if (nonzero_count == 0) {
+    // No deformation: valid whatever the spin
+    for (size_t i=0; i<GYOTO_NB_DELTAHOR_MAX; ++i) deltashorizon_[i]=0.;
+    return;
+  }
+  if (spin_ == 0.) GYOTO_ERROR("null spin case not supported");
   if (nonzero_count != 0 && nonzero_count != 1)
     GYOTO_ERROR("In KonoplyaRezzollaZhidenko: at most one parameter must be non-zero");
 	    
-- 
2.43.0


From 955c2ec4dfb25f268f614a9381966196577b3174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 048/105] fix: a Blob could not be read back from its own XML

---
 lib/Blob.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Blob.C b/lib/Blob.C
index a260954..31b8127 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -45,12 +45,12 @@ GYOTO_PROPERTY_BOOL(Blob,
 GYOTO_PROPERTY_BOOL(Blob,
 		    SpaceGaussianModulated, NoSpaceGaussianModulated,
 		    spaceGaussianModulated)
+GYOTO_PROPERTY_STRING(Blob, BlobMotionType, blobMotionType,
+		      "\"Equatorial\" (default), \"HelicalConical\", or \"HelicalCylindrical\".")
 GYOTO_PROPERTY_VECTOR_DOUBLE(Blob, Init4Coord, init4Coord,
 			     "Initial 4-position vector of the Blob, eg (t,r,theta,phi)")
 GYOTO_PROPERTY_VECTOR_DOUBLE(Blob, Init3Velo, init3Velo,
 			     "Initial coordinate 3-velocity of the Blob, eg (dr/dt,dtheta/dt,dphi/dt).")
-GYOTO_PROPERTY_STRING(Blob, BlobMotionType, blobMotionType,
-		      "\"Equatorial\" (default), \"HelicalConical\", or \"HelicalCylindrical\".")
 GYOTO_PROPERTY_DOUBLE_UNIT(Blob, NumberDensity, numberDensity,
 			   "cgs number density, constant through blob")
 GYOTO_PROPERTY_DOUBLE(Blob, Temperature, temperature,
@@ -166,7 +166,7 @@ void Blob::init4Coord(std::vector<double> const &v) {
     init4Coord_[i]=v[i];
   }
   if (blobMotionType_=="HelicalCylindrical" or blobMotionType_=="Equatorial"){
-    if (init4Coord_[2] != M_PI/2.)
+    if (fabs(init4Coord_[2] - M_PI/2.) > 1e-12) // XML holds 15 digits
       GYOTO_ERROR("Equatorial and cylindrical motions must start at equator");
   }
 }
-- 
2.43.0


From 7554356a5bd0aa6c95d53f8e27ddc5e6a99c815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 049/105] fix: a Jet with only one opening angle set could not
 be read back from its own XML

---
 lib/Jet.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Jet.C b/lib/Jet.C
index b7c7dc2..4ea683a 100644
--- a/lib/Jet.C
+++ b/lib/Jet.C
@@ -93,7 +93,7 @@ double Jet::jetShapeOuterParabolaParam() const {return jetShapeOuterParabolaPara
 // for conical:
 void Jet::jetOuterOpeningAngle(double ang) {
   jetOuterOpeningAngle_=ang;
-  if (jetInnerOpeningAngle_ != -1.){ // default angle value is -1
+  if (jetInnerOpeningAngle_ != -1. && ang != -1.){ // default angle value is -1
     if (jetOuterOpeningAngle_ < jetInnerOpeningAngle_)
     GYOTO_ERROR("The outer opening angle cannot be smaller "
 		"than the inner opening angle");
@@ -102,7 +102,7 @@ void Jet::jetOuterOpeningAngle(double ang) {
 double Jet::jetOuterOpeningAngle()const{return jetOuterOpeningAngle_;}
 void Jet::jetInnerOpeningAngle(double ang) {
   jetInnerOpeningAngle_=ang;
-  if (jetOuterOpeningAngle_ != -1.){ // default angle value is -1
+  if (jetOuterOpeningAngle_ != -1. && ang != -1.){ // default angle value is -1
     if (jetOuterOpeningAngle_ < jetInnerOpeningAngle_)
       GYOTO_ERROR("The outer opening angle cannot be smaller "
 		  "than the inner opening angle");
-- 
2.43.0


From 93a2f58791756e7c4bf9e47245f3c2fcd9c9bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:13 +0000
Subject: [PATCH 050/105] fix: InitCoord of an uninitialised Worldline was read
 from uninitialised memory and written to XML

---
 include/GyotoPhoton.h | 1 +
 lib/Photon.C          | 5 +++++
 lib/Worldline.C       | 3 ++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/GyotoPhoton.h b/include/GyotoPhoton.h
index 701e7bc..bec6774 100644
--- a/include/GyotoPhoton.h
+++ b/include/GyotoPhoton.h
@@ -281,6 +281,7 @@ class Gyoto::Photon
 		 double tinside, double &toutside) ;
 
 #ifdef GYOTO_USE_XERCES
+  virtual void fillProperty(Gyoto::FactoryMessenger *fmp, Property const &p) const ;
   virtual void setParameters(FactoryMessenger *fmp) ;
   static SmartPointer<Photon> Subcontractor(Gyoto::FactoryMessenger*);
 #endif
diff --git a/lib/Photon.C b/lib/Photon.C
index d39f0ff..2618813 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -1273,6 +1273,11 @@ void Photon::Refined::transfer(double * Inu, double * Qnu, double * Unu, double
 }
 
 #ifdef GYOTO_USE_XERCES
+void Photon::fillProperty(Gyoto::FactoryMessenger *fmp, Property const &p) const {
+  if (p.name == "InitCoord" && imin_ > imax_) return; // not set
+  Object::fillProperty(fmp, p);
+}
+
 void Photon::setParameters(FactoryMessenger* fmp) {
   wait_pos_ = 1;
   metric(fmp->metric());
diff --git a/lib/Worldline.C b/lib/Worldline.C
index 0ef0f09..438ebd9 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -402,11 +402,12 @@ void Worldline::initCoord(std::vector<double> const &v) {
 
 std::vector<double> Worldline::initCoord() const {
   std::vector<double> coord(8, 0.);
+  if (i0_>imax_ || imin_>i0_) return coord; // not set
   coord[0] = x0_[i0_];
   coord[1] = x1_[i0_];
   coord[2] = x2_[i0_];
   coord[3] = x3_[i0_];
-  coord[4] = (i0_<=imax_ && imin_<=i0_)?x0dot_[i0_]:0.;
+  coord[4] = x0dot_[i0_];
   coord[5] = x1dot_[i0_];
   coord[6] = x2dot_[i0_];
   coord[7] = x3dot_[i0_];
-- 
2.43.0


From 23fa96839b9adc24b1e7b922f9c1201b6da5b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 051/105] fix: reading the Spectrometer of a Screen leaked its
 FactoryMessenger

---
 lib/Screen.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index a01b0bc..2918cb1 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -1445,10 +1445,12 @@ SmartPointer<Screen> Screen::Subcontractor(FactoryMessenger* fmp) {
       fov = Gyoto::atof(tc); fov_unit=unit; fov_found=1;
     }
     else if (name=="Spectrometer") {
+      FactoryMessenger * child = fmp->getChild();
       scr ->
 	spectrometer((Spectrometer::getSubcontractor(fmp->getAttribute("kind"),
 						     plugin))
-		     (fmp->getChild(), plugin));
+		     (child, plugin));
+      delete child;
     }
     else if (name=="Dangle1"){
       dangle1 = Gyoto::atof(tc); dangle1_found=1; aunit=unit;
-- 
2.43.0


From ded5978c0595a5069e3d7283020bb6a4a9597186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 052/105] fix: a Screen saved with its metric could not be read
 back

---
 lib/Screen.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Screen.C b/lib/Screen.C
index 2918cb1..1f87a97 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -1463,6 +1463,7 @@ SmartPointer<Screen> Screen::Subcontractor(FactoryMessenger* fmp) {
 	     name=="Rectilinear")  scr -> anglekind(name);
     else if (name=="Mask")
       scr -> maskFile(content==""?"":fmp->fullPath(content));
+    else if (name=="Metric") continue; // already set above
     else if (scr->setParameter(name, content, unit))
       GYOTO_ERROR("no such Screen Property");
   }
-- 
2.43.0


From 0f7b934c15deb39a829b75fc517fed111c52fd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 053/105] fix: DynamicalDisk3D and DynamicalDiskBolometric were
 saved under the kind of their parent class

---
 lib/DynamicalDisk3D.C         | 1 +
 lib/DynamicalDiskBolometric.C | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/DynamicalDisk3D.C b/lib/DynamicalDisk3D.C
index 458b3e3..a5c9339 100644
--- a/lib/DynamicalDisk3D.C
+++ b/lib/DynamicalDisk3D.C
@@ -67,6 +67,7 @@ DynamicalDisk3D::DynamicalDisk3D() :
   velocity_array_(NULL)
 {
   GYOTO_DEBUG << "DynamicalDisk3D Construction" << endl;
+  kind_="DynamicalDisk3D";
   spectrumBB_ = new Spectrum::BlackBody(); 
 }
 
diff --git a/lib/DynamicalDiskBolometric.C b/lib/DynamicalDiskBolometric.C
index 6871b6b..11dcce0 100644
--- a/lib/DynamicalDiskBolometric.C
+++ b/lib/DynamicalDiskBolometric.C
@@ -53,6 +53,7 @@ DynamicalDiskBolometric::DynamicalDiskBolometric() :
   DynamicalDisk()
 {
   GYOTO_DEBUG << "DynamicalDiskBolometric Construction" << endl;
+  kind_="DynamicalDiskBolometric";
 }
 
 DynamicalDiskBolometric::DynamicalDiskBolometric(const DynamicalDiskBolometric& o) :
-- 
2.43.0


From 10ce279509d91bcb94a4581bac5fd4ee19a35386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 054/105] fix: PatternDisk, DirectionalDisk, Disk3D,
 XillverReflection wrote an unset file name to XML

---
 lib/DirectionalDisk.C   | 1 +
 lib/Disk3D.C            | 1 +
 lib/PatternDisk.C       | 1 +
 lib/XillverReflection.C | 2 ++
 4 files changed, 5 insertions(+)

diff --git a/lib/DirectionalDisk.C b/lib/DirectionalDisk.C
index d3686c6..cbc0370 100644
--- a/lib/DirectionalDisk.C
+++ b/lib/DirectionalDisk.C
@@ -56,6 +56,7 @@ GYOTO_PROPERTY_END(DirectionalDisk, ThinDisk::properties)
 
 void DirectionalDisk::fillProperty(Gyoto::FactoryMessenger *fmp,
 			       Property const &p) const {
+  if (p.name == "File" && filename_ == "") return; // not set
   if (p.name == "File")
     fmp->setParameter("File", (filename_.compare(0,1,"!") ?
 			       filename_ :
diff --git a/lib/Disk3D.C b/lib/Disk3D.C
index 58c3305..21d0da1 100644
--- a/lib/Disk3D.C
+++ b/lib/Disk3D.C
@@ -52,6 +52,7 @@ GYOTO_PROPERTY_END(Disk3D, Generic::properties)
 
 void Disk3D::fillProperty(Gyoto::FactoryMessenger *fmp,
 			       Property const &p) const {
+  if (p.name == "File" && filename_ == "") return; // not set
   if (p.name == "File"){
     fmp->setParameter("File", (filename_.compare(0,1,"!") ?
 			       filename_ :
diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 8ada8ad..58954a3 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -51,6 +51,7 @@ GYOTO_PROPERTY_END(PatternDisk, ThinDisk::properties)
 
 void PatternDisk::fillProperty(Gyoto::FactoryMessenger *fmp,
 			       Property const &p) const {
+  if (p.name == "File" && filename_ == "") return; // not set
   if (p.name == "File")
     fmp->setParameter("File", (filename_.compare(0,1,"!") ?
 			       filename_ :
diff --git a/lib/XillverReflection.C b/lib/XillverReflection.C
index a40e8ae..1949234 100644
--- a/lib/XillverReflection.C
+++ b/lib/XillverReflection.C
@@ -62,6 +62,8 @@ GYOTO_PROPERTY_END(XillverReflection, ThinDisk::properties)
 
 void XillverReflection::fillProperty(Gyoto::FactoryMessenger *fmp,
 				     Property const &p) const {
+  if (p.name == "FileIllumination" && filenameIllum_ == "") return; // not set
+  if (p.name == "FileReflection" && filenameRefl_ == "") return; // not set
   if (p.name == "FileIllumination")
     fmp->setParameter("FileIllumination", (filenameIllum_.compare(0,1,"!") ?
 					   filenameIllum_ :
-- 
2.43.0


From 17bd16a0c5d292ae6cc9d1aa812138b9207c28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:35 +0000
Subject: [PATCH 055/105] fix: the default position of a Blob was not one its
 default motion accepts

---
 lib/Blob.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Blob.C b/lib/Blob.C
index 31b8127..cebbf2a 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -104,6 +104,7 @@ UniformSphere("Blob"),
     init4Coord_[ii]=0.;
     init3Velo_[ii]=0.;
   }
+  init4Coord_[2]=M_PI/2.; // the default motion is Equatorial
   init4Coord_[3]=0.;
 }
 
-- 
2.43.0


From 0643d6f2b87d844a9a69d05a9741eef605547ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:50 +0000
Subject: [PATCH 056/105] fix: a XillverReflection without lamp could not be
 read back from its own XML

---
 lib/XillverReflection.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/XillverReflection.C b/lib/XillverReflection.C
index 1949234..0b598d0 100644
--- a/lib/XillverReflection.C
+++ b/lib/XillverReflection.C
@@ -377,6 +377,7 @@ double XillverReflection::timelampphizero() const{
 void XillverReflection::timelampphizero(double tt){
   if (lampradius_==0.)
     {
+      if (tt==timelampphizero_) return; // default values, e.g. from XML
       GYOTO_ERROR("In Xillver::timelempphizero: "
 		 "update lampradius before timelampphizero.");
     }
-- 
2.43.0


From f804b6c8f3330132940dabab3f9b700783255a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:46 +0000
Subject: [PATCH 057/105] fix: assigning to a SmartPointer something owned by
 its current pointee was a use after free

---
 include/GyotoSmartPointer.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/GyotoSmartPointer.h b/include/GyotoSmartPointer.h
index 5115af8..3dde631 100644
--- a/include/GyotoSmartPointer.h
+++ b/include/GyotoSmartPointer.h
@@ -285,12 +285,15 @@ class Gyoto::SmartPointer
       if (this == &right)
 	return *this;
       
-      if (right.obj)
-	right.obj->incRefCount ();
+      // right may be a part of the object we are about to release
+      T * newobj = right.obj;
+
+      if (newobj)
+	newobj->incRefCount ();
       
       decRef ();
       
-      obj = right.obj;
+      obj = newobj;
       
       return *this;
     }
@@ -304,11 +307,12 @@ class Gyoto::SmartPointer
       if (obj == right)
 	return *this;
       
+      // right may belong to the object we are about to release
+      if (right) right->incRefCount();
+
       decRef ();
       
       obj = right;
-
-      if (obj) obj->incRefCount();
       
       return *this;
     }
-- 
2.43.0


From 5eb558f915970795423bdaabea825711ff3390a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 058/105] fix: an error met by a ray-tracing thread terminated
 the process; the list of threads leaked

---
 lib/Scenery.C | 52 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index ec7856a..2d9ac6f 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -26,6 +26,8 @@
 #include <cfloat>
 #include <cstring>
 #include <cstdlib>
+#include <exception>
+#include <vector>
 
 #ifdef HAVE_MPI
 #include "GyotoFactory.h"
@@ -220,6 +222,7 @@ typedef struct SceneryThreadWorkerArg {
   double * impactcoords;
   SceneryThreadWorkerArg(Screen::Coord2dSet & ijin);
   bool is_pixel;
+  std::exception_ptr error; ///< first error met by any of the threads
 } SceneryThreadWorkerArg ;
 
 SceneryThreadWorkerArg::SceneryThreadWorkerArg(Screen::Coord2dSet & ijin)
@@ -229,22 +232,23 @@ SceneryThreadWorkerArg::SceneryThreadWorkerArg(Screen::Coord2dSet & ijin)
 }
 
 
-static void * SceneryThreadWorker (void *arg) {
+static void SceneryThreadLoop (SceneryThreadWorkerArg *larg) {
   /*
     This is the real ray-tracing loop. It may be called by multiple
     threads in parallel, launched from ::rayTrace
    */
 
-  SceneryThreadWorkerArg *larg = static_cast<SceneryThreadWorkerArg*>(arg);
-
   // Each thread needs its own Photon, clone cached Photon
   // it is assumed to be already initialized with spectrometer et al.
   Photon * ph = larg -> ph;
+  SmartPointer<Photon> phclone = NULL;
 #ifdef HAVE_PTHREAD
   if (larg->mutex) {
     pthread_mutex_lock(larg->mutex);
-    ph = larg -> ph -> clone();
+    try { phclone = larg -> ph -> clone(); }
+    catch (...) { pthread_mutex_unlock(larg->mutex); throw; }
     pthread_mutex_unlock(larg->mutex);
+    ph = phclone;
   }
 #endif
 
@@ -267,7 +271,7 @@ static void * SceneryThreadWorker (void *arg) {
     if (larg->mutex) pthread_mutex_lock(larg->mutex);
 #endif
 
-    if (!larg->ij.valid()) {
+    if (larg->error || !larg->ij.valid()) {
       // terminate, but first...
 #ifdef HAVE_PTHREAD
       // ...unlock mutex so our siblings can access i & j and terminate too
@@ -304,12 +308,29 @@ static void * SceneryThreadWorker (void *arg) {
   }
 #ifdef HAVE_PTHREAD
   if (larg->mutex) {
-    delete ph;
+    phclone = NULL;
     pthread_mutex_lock(larg->mutex);
   }
   GYOTO_MSG << "\nThread terminating after integrating " << count << " photons";
   if (larg->mutex) pthread_mutex_unlock(larg->mutex);
 # endif
+}
+
+static void * SceneryThreadWorker (void *arg) {
+  // An exception must neither leave a thread nor unwind the stack of
+  // the parent thread, which the other threads use: keep it until
+  // everyone is back.
+  SceneryThreadWorkerArg *larg = static_cast<SceneryThreadWorkerArg*>(arg);
+  try { SceneryThreadLoop(larg); }
+  catch (...) {
+#ifdef HAVE_PTHREAD
+    if (larg->mutex) pthread_mutex_lock(larg->mutex);
+#endif
+    if (!larg->error) larg->error = std::current_exception();
+#ifdef HAVE_PTHREAD
+    if (larg->mutex) pthread_mutex_unlock(larg->mutex);
+#endif
+  }
   return NULL;
 }
 
@@ -659,7 +680,7 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
 #ifdef HAVE_PTHREAD
   larg.mutex  = NULL;
   pthread_mutex_t mumu = PTHREAD_MUTEX_INITIALIZER;
-  pthread_t * threads = NULL;
+  std::vector<pthread_t> threads;
   pthread_t pself = pthread_self();
   larg.parent = &pself;
   bool thread_safe = isThreadSafe();
@@ -669,12 +690,15 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
 	"Something in this Scenery is not thread-safe: running single-threaded"
 		    << endl;
     } else {
-      threads = new pthread_t[nthreads_-1];
       larg.mutex  = &mumu;
       for (size_t th=0; th < nthreads_-1; ++th) {
-	if (pthread_create(threads+th, NULL,
-			   SceneryThreadWorker, static_cast<void*>(&larg)) < 0)
-	  GYOTO_ERROR("Error creating thread");
+	pthread_t thread;
+	if (pthread_create(&thread, NULL,
+			   SceneryThreadWorker, static_cast<void*>(&larg))) {
+	  GYOTO_WARNING << "Error creating thread, using " << th+1 << endl;
+	  break;
+	}
+	threads.push_back(thread);
       }
     }
   }
@@ -686,10 +710,10 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
 
 #ifdef HAVE_PTHREAD
   // Wait for the child threads
-  if (thread_safe && nthreads_>=2)
-    for (size_t th=0; th < nthreads_-1; ++th)
-      pthread_join(threads[th], NULL);
+  for (size_t th=0; th < threads.size(); ++th)
+    pthread_join(threads[th], NULL);
 #endif
+  if (larg.error) std::rethrow_exception(larg.error);
 
   gettimeofday(&tim, NULL);
   end=double(tim.tv_sec)+(double(tim.tv_usec)/1000000.0);
-- 
2.43.0


From 3ffc4d921c362c6630d2cba73b0d4320f98d94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 059/105] fix: Astrobj::Complex and Metric::Complex leaked
 their array of elements

---
 lib/ComplexAstrobj.C | 2 +-
 lib/ComplexMetric.C  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ComplexAstrobj.C b/lib/ComplexAstrobj.C
index 1dbba18..eb79a0a 100644
--- a/lib/ComplexAstrobj.C
+++ b/lib/ComplexAstrobj.C
@@ -54,7 +54,7 @@ Complex *Complex::clone() const {return new Complex(*this); }
 
 Complex::~Complex()
 {
-  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  delete [] elements_;
 }
 
 bool Complex::isThreadSafe() const {
diff --git a/lib/ComplexMetric.C b/lib/ComplexMetric.C
index 806da1e..c1e7093 100644
--- a/lib/ComplexMetric.C
+++ b/lib/ComplexMetric.C
@@ -53,7 +53,7 @@ Complex *Complex::clone() const {return new Complex(*this); }
 
 Complex::~Complex()
 {
-  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  delete [] elements_;
 }
 
 bool Complex::isThreadSafe() const {
-- 
2.43.0


From 037a44b950cc301979bcf267587adfa4bb79df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 060/105] fix: Blob leaked its initial position and velocity

---
 lib/Blob.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Blob.C b/lib/Blob.C
index cebbf2a..e531be2 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -143,6 +143,8 @@ Blob* Blob::clone() const { return new Blob(*this); }
 
 Blob::~Blob() {
   if (debug()) cerr << "DEBUG: Blob::~Blob()\n";
+  delete [] init4Coord_;
+  delete [] init3Velo_;
 }
 
 bool Blob::timeGaussianModulated() const
-- 
2.43.0


From 8f4976c9a1781ffa8a47aa7c47d30e492fac555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:15 +0000
Subject: [PATCH 061/105] fix: Disk3D leaked its opacity, and kept one of the
 wrong size when its dimensions changed

---
 lib/Disk3D.C | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Disk3D.C b/lib/Disk3D.C
index 21d0da1..ab7c07b 100644
--- a/lib/Disk3D.C
+++ b/lib/Disk3D.C
@@ -125,6 +125,7 @@ Disk3D* Disk3D::clone() const
 Disk3D::~Disk3D() {
   GYOTO_DEBUG << "Disk3D Destruction" << endl;
   if (emissquant_) delete [] emissquant_;
+  if (opacity_) delete [] opacity_;
   if (velocity_) delete [] velocity_;
 }
 
@@ -148,6 +149,12 @@ void Disk3D::copyEmissquant(double const *const pattern, size_t const naxes[4])
   }
   if (pattern) {
     size_t nel;
+    if (opacity_ && (nnu_ != naxes[0] || nphi_ != naxes[1] ||
+		     nz_ != naxes[2] || nr_ != naxes[3])) {
+      GYOTO_DEBUG <<"dimensions changed, freeing opacity_" << endl;
+      delete [] opacity_; opacity_ = NULL;
+      flag_radtransf_=0;
+    }
     if (nphi_ != naxes[1]) {
       GYOTO_DEBUG <<"nphi_ changed, freeing velocity_" << endl;
       if (velocity_) { delete [] velocity_; velocity_= NULL; }
-- 
2.43.0


From 6128c70ab0ca5a3796acd47508cc97112eedce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:18 +0000
Subject: [PATCH 062/105] fix: DynamicalDisk3D leaked all its data but the
 current date, and its directory name

---
 include/GyotoDynamicalDisk3D.h |  1 +
 lib/DynamicalDisk3D.C          | 41 ++++++++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/include/GyotoDynamicalDisk3D.h b/include/GyotoDynamicalDisk3D.h
index 9af7fa2..7209dc5 100644
--- a/include/GyotoDynamicalDisk3D.h
+++ b/include/GyotoDynamicalDisk3D.h
@@ -154,6 +154,7 @@ class Gyoto::Astrobj::DynamicalDisk3D : public Astrobj::Disk3D {
    * \param iq Index of the date slice.
    */
   void copyQuantities(int iq) ;
+  void freeArrays(); ///< Free the arrays of all the dates
 
 };
 
diff --git a/lib/DynamicalDisk3D.C b/lib/DynamicalDisk3D.C
index a5c9339..ebd917a 100644
--- a/lib/DynamicalDisk3D.C
+++ b/lib/DynamicalDisk3D.C
@@ -139,9 +139,31 @@ bool DynamicalDisk3D::isThreadSafe() const {
 
 DynamicalDisk3D::~DynamicalDisk3D() {
   GYOTO_DEBUG << "DynamicalDisk3D Destruction" << endl;
+  freeArrays();
+  if (dirname_) delete [] dirname_;
+}
+
+// Is cur one of the nb arrays in array?
+static bool isOneOf(double const * cur, double ** array, int nb) {
+  if (array) for (int i=0; i<nb; ++i) if (array[i]==cur) return true;
+  return false;
+}
+
+// Free the arrays, except those currently lent to Disk3D, which will
+// free them.
+void DynamicalDisk3D::freeArrays() {
+  for (int i=0; i<nb_times_; ++i) {
+    if (emission_array_ && emission_array_[i]!=getEmissquant())
+      delete [] emission_array_[i];
+    if (absorption_array_ && absorption_array_[i]!=opacity())
+      delete [] absorption_array_[i];
+    if (velocity_array_ && velocity_array_[i]!=getVelocity())
+      delete [] velocity_array_[i];
+  }
   if (emission_array_) delete [] emission_array_;
   if (absorption_array_) delete [] absorption_array_;
   if (velocity_array_) delete [] velocity_array_;
+  emission_array_ = absorption_array_ = velocity_array_ = NULL;
 }
 
 double const * DynamicalDisk3D::getVelocity() const { return Disk3D::getVelocity(); }
@@ -149,8 +171,17 @@ double const * DynamicalDisk3D::getVelocity() const { return Disk3D::getVelocity
 void DynamicalDisk3D::copyQuantities(int iq) {
   if (iq<1 || iq>nb_times_)
     GYOTO_ERROR("In DynamicalDisk3D::copyQuantities: incoherent value of iq");
+  // Disk3D owns its arrays unless we have lent them already
+  if (!isOneOf(getEmissquant(), emission_array_, nb_times_))
+    delete [] getEmissquant();
   setEmissquant(emission_array_[iq-1]);
-  if (absorption_array_) opacity(absorption_array_[iq-1]);
+  if (absorption_array_) {
+    if (!isOneOf(opacity(), absorption_array_, nb_times_))
+      delete [] opacity();
+    opacity(absorption_array_[iq-1]);
+  }
+  if (!isOneOf(getVelocity(), velocity_array_, nb_times_))
+    delete [] getVelocity();
   setVelocity(velocity_array_[iq-1]);
 }
 
@@ -482,6 +513,8 @@ void DynamicalDisk3D::file(std::string const &content) {
 #ifdef GYOTO_USE_CFITSIO
     int withopacity=0;
 
+    freeArrays();
+    if (dirname_) delete [] dirname_;
     dirname_ = new char[strlen(content.c_str())+1];
     strcpy(dirname_,content.c_str());
     DIR *dp;
@@ -522,10 +555,10 @@ void DynamicalDisk3D::file(std::string const &content) {
     }
 
     //initialize emission, absorption, velocity arrays
-    emission_array_ = new double*[nb_times_] ;
-    if (withopacity) absorption_array_ = new double*[nb_times_] ;
+    emission_array_ = new double*[nb_times_]() ;
+    if (withopacity) absorption_array_ = new double*[nb_times_]() ;
     else absorption_array_=NULL;
-    velocity_array_ = new double*[nb_times_] ;
+    velocity_array_ = new double*[nb_times_]() ;
 
     double nu0b=0., zminb=0., zmaxb=0., rinb=0., routb=0.;
     size_t nnub=0, nphib=0, nzb=0, nrb=0;
-- 
2.43.0


From 57446974633bea31f90a2131a7e7ab781a73a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:19 +0000
Subject: [PATCH 063/105] fix: Plasmoid leaked everything it allocated and
 started from uninitialised memory

---
 include/GyotoPlasmoid.h |  1 +
 lib/Plasmoid.C          | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/GyotoPlasmoid.h b/include/GyotoPlasmoid.h
index 54845ee..b9f3e2c 100644
--- a/include/GyotoPlasmoid.h
+++ b/include/GyotoPlasmoid.h
@@ -82,6 +82,7 @@ class Gyoto::Astrobj::Plasmoid :
   double* freq_array_;
   double* time_array_;
   double* angle_array_;
+  void freeArrays(); ///< Free the data read from file
 
   int nb_time_;
   int nb_freq_;
diff --git a/lib/Plasmoid.C b/lib/Plasmoid.C
index ed2f5be..c77a089 100644
--- a/lib/Plasmoid.C
+++ b/lib/Plasmoid.C
@@ -79,8 +79,8 @@ Plasmoid::Plasmoid() :
   GYOTO_DEBUG << "done." << endl;
 # endif
 
-  posIni_= new double[4];
-  fourveldt_= new double[4];
+  posIni_= new double[4]();
+  fourveldt_= new double[4]();
 
   emis_polar_array_ = new double*[4];
   abs_polar_array_  = new double*[4];
@@ -178,6 +178,12 @@ Plasmoid* Plasmoid::clone() const { return new Plasmoid(*this); }
 
 Plasmoid::~Plasmoid() {
   if (debug()) cerr << "DEBUG: Plasmoid::~Plasmoid()\n";
+  freeArrays();
+  delete [] emis_polar_array_;
+  delete [] abs_polar_array_;
+  delete [] rot_polar_array_;
+  delete [] posIni_;
+  delete [] fourveldt_;
 }
 
 string Plasmoid::className() const { return  string("Plasmoid"); }
@@ -671,6 +677,17 @@ void Plasmoid::file(std::string const &f) {
   # endif
 }
 
+void Plasmoid::freeArrays() {
+  for (int ii=0; ii<4; ii++){
+    delete [] emis_polar_array_[ii]; emis_polar_array_[ii]=NULL;
+    delete [] abs_polar_array_[ii]; abs_polar_array_[ii]=NULL;
+    if (ii<3) { delete [] rot_polar_array_[ii]; rot_polar_array_[ii]=NULL; }
+  }
+  delete [] time_array_; time_array_=NULL;
+  delete [] freq_array_; freq_array_=NULL;
+  delete [] angle_array_; angle_array_=NULL;
+}
+
 #ifdef GYOTO_USE_CFITSIO
 void Plasmoid::fitsRead(string filename) {
   // Remove first char if it is "!"
@@ -693,6 +710,7 @@ void Plasmoid::fitsRead(string filename) {
   //freq_array_ = new double[nb_freq_];
   //angle_array_= new double[nb_angle_];
 
+  freeArrays();
   emis_polar_array_[0] = FitsRW::fitsReadHDUData(fptr, "J_I", nullptr, 0);
   emis_polar_array_[1] = FitsRW::fitsReadHDUData(fptr, "J_Q", nullptr, 0);
   emis_polar_array_[2] = FitsRW::fitsReadHDUData(fptr, "J_U", nullptr, 0);
-- 
2.43.0


From ec76375be5db43a64976c52a36a5ae67343ef7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:45 +0000
Subject: [PATCH 064/105] fix: PageThorneDisk stopped following its metric when
 another one was refused, and could not be attached before the metric

---
 lib/PageThorneDisk.C | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 71d5782..5638987 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -113,12 +113,15 @@ void PageThorneDisk::updateSpin() {
 }
 
 void PageThorneDisk::metric(SmartPointer<Metric::Generic> gg) {
+  if (gg) {
+    string kin = gg->kind();
+    if (kin != "KerrBL" && kin != "KerrKS")
+      GYOTO_ERROR
+	("PageThorneDisk::metric(): metric must be KerrBL or KerrKS");
+  }
   if (gg_) gg_->unhook(this);
-  string kin = gg->kind();
-  if (kin != "KerrBL" && kin != "KerrKS")
-    GYOTO_ERROR
-      ("PageThorneDisk::metric(): metric must be KerrBL or KerrKS");
   ThinDisk::metric(gg);
+  if (!gg) return;
   updateSpin();
   gg->hook(this);
 }
-- 
2.43.0


From f3d97caceee078dd2cf47a4fb88e97593dd827ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:52 +0000
Subject: [PATCH 065/105] fix: the step control of the Boost integrators read
 past the end of the state in the 3+1 formalism

---
 include/GyotoWorldline.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/GyotoWorldline.h b/include/GyotoWorldline.h
index 1c3713e..e367288 100644
--- a/include/GyotoWorldline.h
+++ b/include/GyotoWorldline.h
@@ -1127,6 +1127,9 @@ class Gyoto::Worldline::IntegState::Boost : public Generic {
       // Standard Boost numerical error
       Value err_default = checker.error(algebra, x_old, dxdt_old, x_err, dt);
       
+      // The 7-element state of the 3+1 formalism contains no 4-velocity
+      if (x_old.size() < 8) return err_default;
+
       // Compute new vector (4-position, 4-velocity, polar basis if parallel_transport)
       state_t x_new=x_old;
       do_step_(x_new, dt);
-- 
2.43.0


From 4cf7aa24f50de9bc030f0ab73753b025e31d3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:53 +0000
Subject: [PATCH 066/105] fix: Boost::doStep reversed the wrong velocity
 component at the pole in the 3+1 formalism

---
 lib/WorldlineIntegState.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 4dee460..7464461 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -401,7 +401,7 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
 
   // We call the Boost stepper
   do_step_(xx, step);
-  if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
+  if (integ_31_==false && gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
     line_->checkPhiTheta(&xx[0]);
   }
   
@@ -424,6 +424,9 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
       phdot = phprime*tdotnew;
     
     coordout = {tnew,rr,th,ph,tdotnew,rdot,thdot,phdot};
+    if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
+      line_->checkPhiTheta(&coordout[0]);
+    }
   }
 }
 
-- 
2.43.0


From 60df342967ff7edc42e2c3ea83359fd87816b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:20 +0000
Subject: [PATCH 067/105] fix: Worldline::save_txyz wrote one line more than
 there are data, from past the end of the arrays

---
 lib/Worldline.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 438ebd9..4bbe2d3 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1419,7 +1419,7 @@ void Worldline::save_txyz(char * filename, const double t1, const double mass_su
 
   // DATA
 
-  for (n=0;n<=nelem;++n) {
+  for (n=0;n<nelem;++n) {
     fichierxyz << setprecision(prec) << setw(width) << t[n] << "  "
 	       << setprecision(prec) << setw(width) << x[n] << "  "
 	       << setprecision(prec) << setw(width) << y[n] << "  "
-- 
2.43.0


From 0a80dd3feceec126e0592455c590d2ae423d63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:20 +0000
Subject: [PATCH 068/105] fix: Worldline::getCoord(index) overflowed a
 4-element destination

---
 lib/Worldline.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 4bbe2d3..e8e5fbc 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1570,7 +1570,7 @@ void Worldline::getCoord(size_t index, state_t &coord) const {
   coord[1] = x1_[index];
   coord[2] = x2_[index];
   coord[3] = x3_[index];
-  if (sz>=4) {
+  if (sz>=8) {
     coord[4] = x0dot_[index];
     coord[5] = x1dot_[index];
     coord[6] = x2dot_[index];
-- 
2.43.0


From ee73d25a7714772f0290abac9ccc7bc2f28efc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:39 +0000
Subject: [PATCH 069/105] fix: the runge_kutta_dopri5 integrator started steps
 with the derivative of another state

---
 lib/WorldlineIntegState.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 7464461..2a02f55 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -592,6 +592,9 @@ void Gyoto::Worldline::IntegState::Boost::setup_stepper(){
         mutable
         -> controlled_step_result
       {
+        // The state may differ from the one the last step ended on: forget
+        // the derivative this first-same-as-last stepper remembers
+        controlled.reset();
         return controlled.try_step(this->system_, inout, t, h);
       };
       do_step_ =
@@ -599,6 +602,7 @@ void Gyoto::Worldline::IntegState::Boost::setup_stepper(){
         (state_t &inout, double h)
         mutable
       {
+        controlled.stepper().reset(); // idem
         controlled.stepper().do_step(this->system_, inout, 0., h);
       };
       break;
-- 
2.43.0


From 093548c9fdfc40c7f4607c038ce234733f949f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:39 +0000
Subject: [PATCH 070/105] fix: an integration restarted from a recorded date
 compared squared norms with a non-squared reference

---
 lib/WorldlineIntegState.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 2a02f55..4077ec6 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -74,7 +74,7 @@ Worldline::IntegState::Generic::init(Worldline * line,
   line_=line;
   init();
   delta_=delta;
-  if (line_->getImin() <= line_->getImax() && gg_) norm_=normref_= gg_->norm(&coord[0],&coord[4]);
+  if (line_->getImin() <= line_->getImax() && gg_) norm_=normref_= gg_->ScalarProd(&coord[0],&coord[4],&coord[4]);
 }
 
 void Worldline::IntegState::Generic::checkNorm(double coord[8])
-- 
2.43.0


From 057253e3c2defe68aa53d7106ccb4793298102e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 071/105] fix: a star at x<0 was looked for at the wrong place
 in SchwarzschildHarmonic

---
 lib/UniformSphere.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/UniformSphere.C b/lib/UniformSphere.C
index 355ed97..7088397 100644
--- a/lib/UniformSphere.C
+++ b/lib/UniformSphere.C
@@ -151,7 +151,7 @@ double UniformSphere::operator()(double const coord[4]) {
   // in order to ease comparison between coordinate systems.
   if (gg_->kind()=="SchwarzschildHarmonic"){
     double r_st = sqrt(coord_st[1]*coord_st[1]+coord_st[2]*coord_st[2]+coord_st[3]*coord_st[3]);
-    double theta = acos(coord_st[3]/r_st), phi = atan(coord_st[2]/coord_st[1]);
+    double theta = acos(coord_st[3]/r_st), phi = atan2(coord_st[2], coord_st[1]);
     coord_st[1]+= sin(theta)*cos(phi);
     coord_st[2]+= sin(theta)*sin(phi);
     coord_st[3]+= cos(theta);
-- 
2.43.0


From 0ac5776e3b40db6c4a46f0f04b6e3955f45d7d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 072/105] fix: what an opaque object hides overwrote redshift
 and emission time when a spectrometer was attached but not used

---
 lib/Photon.C | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index 2618813..73901ee 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -699,7 +699,12 @@ int Photon::hit(Astrobj::Properties *data) {
       GYOTO_DEBUG_EXPR(transmission_freqobs_);
 #     endif
 
-      if ( getTransmissionMax() < GYOTO_LIMIT_TRANSMISSION ) {
+      // per-channel transmissions are only maintained when a spectral
+      // quantity is requested
+      bool spectral = data && (data->spectrum || data->binspectrum ||
+	data->stokesQ || data->stokesU || data->stokesV);
+      if ( (spectral ? getTransmissionMax() : transmission_freqobs_)
+	   < GYOTO_LIMIT_TRANSMISSION ) {
 	stopcond=1;
 
 #       if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From 47be59bd5c78a751f3ef6e65449682748c460993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 073/105] fix: rays went through the opaque PageThorneDisk when
 a spectrum was requested

---
 lib/PageThorneDisk.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 5638987..aff2a60 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -363,6 +363,7 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
       delete [] nuem;
     }
     /* update photon's transmission */
+    for (size_t ii=0; ii<nbnuobs; ++ii) ph -> transmit(ii,0);
     ph -> transmit(size_t(-1),0); // We force the transmission to be zero because optically thick
                                   // and radiativeQ(polar) implemented which break the flag loop in Generic
   } else {
-- 
2.43.0


From ffe5f02226c12011312595c5242bd26cb37f2433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 074/105] fix: PageThorneDisk refused to compute an unpolarised
 spectrum

---
 lib/PageThorneDisk.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index aff2a60..46d0e0f 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -301,7 +301,8 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
         //cout << "transmission : " << ph -> getTransmission(size_t(-1)) << endl;
       }
     }
-    if (data->spectrum||data->stokesQ||data->stokesU||data->stokesV) {
+    if ((data->spectrum && ph->parallelTransport())
+	||data->stokesQ||data->stokesU||data->stokesV) {
       //ggred=1.;
       if (!ph -> parallelTransport())
         GYOTO_ERROR("parallelTransport not true, impossible to compute polarisation");
-- 
2.43.0


From 8a5c62e0dd1cdcf6748ed7a583e94ca8a047ea9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 075/105] fix: a beamed EquatorialHotSpot refused rays nearly
 normal to the disk

---
 lib/EquatorialHotSpot.C | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/EquatorialHotSpot.C b/lib/EquatorialHotSpot.C
index 06a73bd..a3352eb 100644
--- a/lib/EquatorialHotSpot.C
+++ b/lib/EquatorialHotSpot.C
@@ -216,10 +216,15 @@ double EquatorialHotSpot::emission(double, double,
       double pscalu=fabs(gg_->ScalarProd(&coord_ph[0],&coord_ph[4],
 					 uemitter));
       if (pscalu==0.) GYOTO_ERROR("Undefined cosalpha!");
-      cosalpha = 1./pscalu*sqrt(gthth)*fabs(pth); // = |cos(alpha)|
+      // uemitter is the velocity of the center of the spot: it is not
+      // exactly unit at the position of the photon
+      double u2=-gg_->ScalarProd(&coord_ph[0],uemitter,uemitter);
+      if (u2<=0.) GYOTO_ERROR("Undefined cosalpha!");
+      cosalpha = sqrt(u2)/pscalu*sqrt(gthth)*fabs(pth); // = |cos(alpha)|
 
-      if (fabs(cosalpha)>1.)
+      if (cosalpha>1.+1e-3)
 	GYOTO_ERROR("cosalpha>1!");
+      if (cosalpha>1.) cosalpha=1.; // null condition met to numerical precision
     }
       
     // emission Gaussian width
-- 
2.43.0


From 013762270516134733abfc614082917f894063bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:38 +0000
Subject: [PATCH 076/105] fix: PageThorneDisk used the prograde marginally
 stable orbit for negative spins, and that of the first spin ever set

---
 lib/PageThorneDisk.C | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 46d0e0f..a2d4987 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -104,12 +104,15 @@ void PageThorneDisk::updateSpin() {
   double z2 = pow(3.*aa2_ + z1*z1,0.5);
   double acosaao3= acos(aa_)/3.;
 
-  x0_ = sqrt((3. + z2 - pow((3. - z1)*(3. + z1 + 2.*z2),0.5)));
+  // The disk rotates towards increasing phi: its orbits are retrograde
+  // when the spin is negative
+  bool rin_is_rms = (rin_==0. || rin_==x0_*x0_);
+  x0_ = sqrt(3. + z2 + (aa_<0.?1.:-1.)*sqrt((3. - z1)*(3. + z1 + 2.*z2)));
   x1_ = 2.*cos(acosaao3 - M_PI/3.);
   x2_ = 2.*cos(acosaao3 + M_PI/3.); 
   x3_ = -2.*cos(acosaao3);
 
-  if (rin_==0.) rin_=(3.+z2-sqrt((3.-z1)*(3.+z1+2.*z2)));
+  if (rin_is_rms) rin_=x0_*x0_;
 }
 
 void PageThorneDisk::metric(SmartPointer<Metric::Generic> gg) {
-- 
2.43.0


From 097f33c7b284e5fa986ac833311118d7b0804e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:15 +0000
Subject: [PATCH 077/105] fix: correcting the polarisation basis swapped its
 two vectors

IntegState::Boost::reorthonormalizeBasis() wrote Etheta where Ephi is
stored and vice versa, rotating the polarisation by 90 degrees each time
the correction was applied, and projected along the photon vector, which
is null.
---
 lib/WorldlineIntegState.C | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 4077ec6..9402aab 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -474,13 +474,21 @@ void Worldline::IntegState::Boost::reorthonormalizeBasis(state_t &coord) const {
     Etheta[ii]=coord[ii+12]; // polarization basis vector 2
   }
 
-  // project Etheta orthogonal to photon_tgvec
-  gg_->projectFourVect(&coord[0], Etheta, photon_tgvec);
+  // project Etheta orthogonal to photon_tgvec. This vector is null: it
+  // is orthogonal to itself and cannot be used as direction of the
+  // correction, the normal to the surface t=const can.
+  double gup[4][4], normal[4];
+  gg_->gmunu_up(gup, &coord[0]);
+  for (int ii=0;ii<4;ii++)
+    normal[ii]=gup[ii][0]/photon_tgvec[0]; // normal.photon_tgvec=1
+  double proj=gg_->ScalarProd(&coord[0], Etheta, photon_tgvec);
+  for (int ii=0;ii<4;ii++) Etheta[ii] -= proj*normal[ii];
   double norm = gg_->norm(&coord[0], Etheta);
   gg_->multiplyFourVect(Etheta, 1.0/norm);
 
   // project Ephi orthogonal to photon_tgvec
-  gg_->projectFourVect(&coord[0], Ephi, photon_tgvec);
+  proj=gg_->ScalarProd(&coord[0], Ephi, photon_tgvec);
+  for (int ii=0;ii<4;ii++) Ephi[ii] -= proj*normal[ii];
 
   // project Ephi orthogonal to Etheta
   gg_->projectFourVect(&coord[0], Ephi, Etheta);
@@ -491,8 +499,8 @@ void Worldline::IntegState::Boost::reorthonormalizeBasis(state_t &coord) const {
 
   // Write output in coord
   for (int ii=0; ii<4; ii++) {
-    coord[ii+8]  = Etheta[ii];
-    coord[ii+12] = Ephi[ii];
+    coord[ii+8]  = Ephi[ii];
+    coord[ii+12] = Etheta[ii];
   }
 }
 
-- 
2.43.0


From b6d2dd5a529833f6c0218cd0f2e46738a6ea8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:15 +0000
Subject: [PATCH 078/105] fix: Worldline::checkBasis did not store the
 corrected basis

The vectors were corrected in local variables only, and projected along
the photon vector, which is null.
---
 lib/Worldline.C | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index e8e5fbc..dc58906 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1685,13 +1685,21 @@ void Worldline::checkBasis(state_t &coord) const {
     GYOTO_DEBUG << "Correcting polar basis using Gram-Schmidt" << endl;
 
     // Gram-Schmidt
-    // project Etheta orthogonal to photon_tgvec
-    metric_->projectFourVect(&coord[0], Etheta, photon_tgvec);
+    // project Etheta orthogonal to photon_tgvec. This vector is null: it
+    // is orthogonal to itself and cannot be used as direction of the
+    // correction, the normal to the surface t=const can.
+    double gup[4][4], normal[4];
+    metric_->gmunu_up(gup, &coord[0]);
+    for (int ii=0;ii<4;ii++)
+      normal[ii]=gup[ii][0]/photon_tgvec[0]; // normal.photon_tgvec=1
+    double proj=metric_->ScalarProd(&coord[0], Etheta, photon_tgvec);
+    for (int ii=0;ii<4;ii++) Etheta[ii] -= proj*normal[ii];
     norm = abs(metric_->norm(&coord[0], Etheta));
     metric_->multiplyFourVect(Etheta, 1.0/norm);
 
     // project Ephi orthogonal to photon_tgvec
-    metric_->projectFourVect(&coord[0], Ephi, photon_tgvec);
+    proj=metric_->ScalarProd(&coord[0], Ephi, photon_tgvec);
+    for (int ii=0;ii<4;ii++) Ephi[ii] -= proj*normal[ii];
 
     // project Ephi orthogonal to Etheta
     metric_->projectFourVect(&coord[0], Ephi, Etheta);
@@ -1699,6 +1707,11 @@ void Worldline::checkBasis(state_t &coord) const {
     // normalise Ephi
     norm = abs(metric_->norm(&coord[0], Ephi));
     metric_->multiplyFourVect(Ephi, 1.0/norm);
+
+    for (int ii=0;ii<4;ii++){
+      coord[ii+8]=Ephi[ii];
+      coord[ii+12]=Etheta[ii];
+    }
   }
 
   // Check that the basis have been successfuly corrected
-- 
2.43.0


From a88b049c82b58eff0d9377ff135b838bcc87a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:15 +0000
Subject: [PATCH 079/105] fix: a medium with neither dichroism nor Faraday
 rotation did not absorb (Omatrix)

---
 lib/Astrobj.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index c5452a4..a46b30f 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -809,8 +809,8 @@ Matrix4d Generic::Omatrix(double alphaInu, double alphaQnu, double alphaUnu, dou
   M4(3,3)=pow(aV,2)+pow(rV,2)-(alpha2+r2)/2.;
 	//cout << "M4 :\n" << M4 << endl;
 
-  if (Theta==0.)
-    return Matrix4d::Identity();
+  if (Theta==0.) // unpolarised medium
+    return exp(-aI*dsem*gg_->unitLength())*Matrix4d::Identity();
   
   // Filling O matrix, output
   Onu=exp(-aI*dsem*gg_->unitLength())*\
-- 
2.43.0


From 9b7b4fd5892d1e108422ac57e7a13750eb9ac11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:15 +0000
Subject: [PATCH 080/105] fix: unpolarised objects had their absorption
 coefficient used as transmission in polarised ray-tracing

The default polarised radiativeQ() returned alpha_nu (or 1e300) instead
of the transmission in its transmission matrix.
---
 lib/Astrobj.C | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index a46b30f..e5d1313 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -644,7 +644,6 @@ void Generic::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
 
   // Compute the output from the non-polarized radiativeQ().
   double * Taunu = new double[nbnu];
-  double * alphaInu = new double[nbnu];
   Matrix4d identity;
   identity << 1, 0, 0, 0,
               0, 1, 0, 0,
@@ -657,16 +656,9 @@ void Generic::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
     Unu[i] = 0.;
     Vnu[i] = 0.;
     GYOTO_DEBUG_EXPR(Taunu[i]);
-    if (Taunu[i]<1e-6){
-    	//alphaInu[i] = std::numeric_limits<double>::infinity(); // Cause floatting point exception
-    	alphaInu[i] = 1.e300; // something very big 
-    }
-    else alphaInu[i] = -log(Taunu[i])/(dsem*gg_->unitLength());
-    GYOTO_DEBUG_EXPR(alphaInu[i]);
-    Onu[i]=identity*alphaInu[i]; //Default transmission matrix with all polarisation set to 0, MUST be reimplemented
+    Onu[i]=identity*Taunu[i]; //Default transmission matrix with all polarisation set to 0, MUST be reimplemented
   }
   delete [] Taunu;
-  delete [] alphaInu;
 }
 
 double Generic::get_theta_mag(double const fourvect[4], state_t const &coord_ph, double const vel[4]) const{
-- 
2.43.0


From 4f77dfe5312cb98e59f3bff8389e075d18a7a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:33 +0000
Subject: [PATCH 081/105] fix: the polarisation basis was not followed when a
 ray crossed the polar axis

---
 include/GyotoWorldline.h  |  3 +++
 lib/Worldline.C           | 10 ++++++++++
 lib/WorldlineIntegState.C |  6 +++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/GyotoWorldline.h b/include/GyotoWorldline.h
index e367288..afb9983 100644
--- a/include/GyotoWorldline.h
+++ b/include/GyotoWorldline.h
@@ -856,6 +856,9 @@ class Gyoto::Worldline
    */
   void checkPhiTheta(double coord[8]) const;
 
+  /// Same, also for a state with polarisation vectors (16 elements)
+  void checkPhiTheta(state_t &coord) const;
+
   /**
    * \brief Get computed positions in sky coordinates
    */
diff --git a/lib/Worldline.C b/lib/Worldline.C
index dc58906..47a1736 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1263,6 +1263,16 @@ void Worldline::getCoord(double *x0dest,
   memcpy(x3dest, x3_+imin_, sizeof(double)*ncomp);
 }
 
+void Worldline::checkPhiTheta(state_t &coord) const{
+  double pos[8]={coord[0], coord[1], coord[2], coord[3], 0., 0., 1., 0.};
+  checkPhiTheta(pos);
+  coord[2]=pos[2];
+  coord[3]=pos[3];
+  // pos[6]=-1 if theta has been flipped: flip the theta component of
+  // the velocity and of the polarisation vectors, if any
+  for (size_t ii=6; ii<coord.size(); ii+=4) coord[ii]*=pos[6];
+}
+
 void Worldline::checkPhiTheta(double coord[8]) const{
   switch (metric_ -> coordKind()) {
   case GYOTO_COORDKIND_SPHERICAL:
diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 9402aab..eb9565b 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -366,7 +366,7 @@ int Worldline::IntegState::Boost::nextStep(state_t &coord, double& tau, double h
   tau += dtau;
   checkNorm(&coord[0]);
   if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-     line_->checkPhiTheta(&coord[0]);
+     line_->checkPhiTheta(coord);
   }
 
   return line_->stopcond;
@@ -402,7 +402,7 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
   // We call the Boost stepper
   do_step_(xx, step);
   if (integ_31_==false && gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-    line_->checkPhiTheta(&xx[0]);
+    line_->checkPhiTheta(xx);
   }
   
   // Transform back to original vector coord
@@ -425,7 +425,7 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
     
     coordout = {tnew,rr,th,ph,tdotnew,rdot,thdot,phdot};
     if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-      line_->checkPhiTheta(&coordout[0]);
+      line_->checkPhiTheta(coordout);
     }
   }
 }
-- 
2.43.0


From 2326ff6a04e4175e392780c411fae0bf02ef6574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:51 +0000
Subject: [PATCH 082/105] fix: Poloidal and Parabolic magnetic fields were not
 in the rest frame of the emitter

---
 lib/Astrobj.C | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index e5d1313..416b48f 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -1387,10 +1387,12 @@ void Generic::computeB4vect(double B4vect[4], std::string const magneticConfig,
   }else if(magneticConfig=="Poloidal" or magneticConfig=="Poloidal-n"){
     if (gg_->coordKind()==GYOTO_COORDKIND_SPHERICAL) {
       // Spherical coordinates case 
-      double Afact = 1./(gtt*vel[0]*vel[0]+gthth*vel[2]*vel[2]);
-      B4vect[0]=sqrt(gthth*vel[2]*vel[2]*Afact/gtt);
+      // B=alpha*(Afact \partial_t + \partial_th), with B.u=0 and B.B=1
+      double Afact = -gthth*vel[2]/(gtt*vel[0]+gtp*vel[3]),
+        alpha = 1./sqrt(gtt*Afact*Afact+gthth);
+      B4vect[0]=alpha*Afact;
       B4vect[1]=0.;
-      B4vect[2]=sqrt(Afact*gtt*vel[0]*vel[0]/gthth);
+      B4vect[2]=alpha;
       B4vect[3]=0.;
     } else {
       // Cartesian coordinates case
@@ -1427,9 +1429,9 @@ void Generic::computeB4vect(double B4vect[4], std::string const magneticConfig,
       
       double fourvect[4]={0.,0.,0.,0.};
       double sgn = theta==M_PI/2.?1.:cos(theta)/abs(cos(theta));
-      double u_t = gtt*vel[0], u_r=grr*vel[1], u_theta=gthth*vel[2];
+      double u_t = gtt*vel[0]+gtp*vel[3], u_r=grr*vel[1], u_theta=gthth*vel[2];
 
-      fourvect[0]=0.5*u_r*sgn*pow(rr, par-2) - u_theta*par*pow(rr, par-3)*(1.-abs(cos(theta)))/sin(theta);
+      fourvect[0]=0.5*u_r*sgn*pow(rr, par-2) - 0.5*u_theta*par*pow(rr, par-3)*(1.-abs(cos(theta)))/sin(theta);
       fourvect[1]=-0.5*u_t*sgn*pow(rr, par-2);
       fourvect[2]=theta==0.?0.:0.5*u_t*(1.-abs(cos(theta)))/sin(theta)*pow(rr, par-3)*par; // if theta=0 => B^theta=0
       
-- 
2.43.0


From 73e36606ee3b3bdc46f1de87e670418b3cc246b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:06 +0000
Subject: [PATCH 083/105] fix: emission was lost in round-off errors in
 transparent media with Faraday rotation (Pmatrix)

---
 lib/Astrobj.C | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 416b48f..bd33e0d 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -860,7 +860,14 @@ Matrix4d Generic::Pmatrix(double alphaInu, double alphaQnu, double alphaUnu, dou
     // General case, exact formula
     // Use of Eigen calculus of the exponetial of the matrice
     GYOTO_DEBUG << "Intermediate regime: computing exact exponential" << endl;;
-    P = Kmat.fullPivLu().solve(I - (-Kmat * dsem*gg_->unitLength()).exp());
+    // P is the upper right block of the exponential of this matrix.
+    // K⁻¹ (I - exp(-K ds)) would be lost in round-off errors
+    // where absorption is much weaker than Faraday rotation.
+    Eigen::Matrix<double, 8, 8> block = Eigen::Matrix<double, 8, 8>::Zero();
+    block.topLeftCorner<4,4>() = -Kmat * dsem*gg_->unitLength();
+    block.topRightCorner<4,4>() = I;
+    Eigen::Matrix<double, 8, 8> eblock = block.exp();
+    P = dsem*gg_->unitLength() * eblock.topRightCorner<4,4>();
   }
 
   if (P(0,0) < 0.) {
-- 
2.43.0


From ebf5839fe74118a1710d9876fcd7dff5b473fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:27 +0000
Subject: [PATCH 084/105] fix: a StarTrace read with TMin and TMax after its
 default dates started at 0 instead of TMin

---
 lib/StarTrace.C | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/StarTrace.C b/lib/StarTrace.C
index cc4818f..512d5b1 100644
--- a/lib/StarTrace.C
+++ b/lib/StarTrace.C
@@ -184,10 +184,8 @@ void StarTrace::setInitialCondition(double const coord[8]) {
 double StarTrace::TMin() const { return tmin_; }
 void StarTrace::TMin(double t)
 {
-  if (t>tmax_) {
-    tmin_=tmax_;
-    tmax_=t;
-  } else tmin_=t;
+  // The two dates may be set in any order: they are sorted when used
+  tmin_=t;
   GYOTO_DEBUG_EXPR(tmin_);
   GYOTO_DEBUG_EXPR(tmax_);
 }
@@ -195,10 +193,7 @@ void StarTrace::TMin(double t)
 double StarTrace::TMax() const { return tmax_; }
 void StarTrace::TMax(double t)
 {
-  if (t<tmin_) {
-    tmax_=tmin_;
-    tmin_=t;
-  } else tmax_=t;
+  tmax_=t;
   GYOTO_DEBUG_EXPR(tmin_);
   GYOTO_DEBUG_EXPR(tmax_);
 }
@@ -207,8 +202,9 @@ double StarTrace::operator()(double const coord[]) {
   double d2 = DBL_MAX, tmp;
   double ncoord[4];
   memcpy(ncoord, coord, 4*sizeof(double));
-  xFill(tmin_, false);
-  xFill(tmax_, false);
+  double const tmin = min(tmin_, tmax_), tmax = max(tmin_, tmax_);
+  xFill(tmin, false);
+  xFill(tmax, false);
 
   double x=0., y=0., z=0.;
   switch (gg_->coordKind()) {
@@ -228,7 +224,7 @@ double StarTrace::operator()(double const coord[]) {
   double tmp1;
 
   for (size_t i=imin_; i<=imax_; ++i) {
-    if (x0_[i]<tmin_ || x0_[i]>tmax_) continue;
+    if (x0_[i]<tmin || x0_[i]>tmax) continue;
     tmp1 = x-x_[i];
     tmp  = tmp1 * tmp1;
     tmp1 = y-y_[i];
-- 
2.43.0


From 73fa10be5731cb554e73bb8e2da0aea8bebeb45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:27 +0000
Subject: [PATCH 085/105] fix: a FreeStar kept the normalisation of its
 velocity in the metric and at the position it had when set

---
 lib/FreeStar.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/FreeStar.C b/lib/FreeStar.C
index 67bf218..b0f71d2 100644
--- a/lib/FreeStar.C
+++ b/lib/FreeStar.C
@@ -215,5 +215,7 @@ void FreeStar::getVelocity(double const *, double vel[4]){
   vel[0] = fourveldt_[0];
   vel[1] = fourveldt_[1];
   vel[2] = fourveldt_[2];
-  vel[3] = fourveldt_[3];  
+  vel[3] = fourveldt_[3];
+  // The position or the metric may have changed since the velocity was set
+  gg_->normalizeFourVel(posIni_, vel);
 }
-- 
2.43.0


From 23e4a279622c3f6109820125b7be811c59d4afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 086/105] fix: trajectories ignored a change of
 ChernSimons::dzetaCS

---
 lib/ChernSimons.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 1faf716..9aaccb7 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -35,7 +35,7 @@ GYOTO_PROPERTY_DOUBLE(ChernSimons, DzetaCS, dzetaCS, "Chern-Simons coupling cons
 GYOTO_PROPERTY_END(ChernSimons, KerrBL::properties)
 
 // accessor
-void ChernSimons::dzetaCS(double d) {dzetaCS_=d;}
+void ChernSimons::dzetaCS(double d) {dzetaCS_=d; tellListeners();}
 double ChernSimons::dzetaCS() const {return dzetaCS_;}
 
 ///
-- 
2.43.0


From 896a9e9b453ea72b43d25078308ca5ecb3c00991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 087/105] fix: trajectories ignored a change of
 ReissnerNordstrom::charge

---
 lib/ReissnerNordstrom.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/ReissnerNordstrom.C b/lib/ReissnerNordstrom.C
index ebd093e..0e5c3e8 100644
--- a/lib/ReissnerNordstrom.C
+++ b/lib/ReissnerNordstrom.C
@@ -61,6 +61,7 @@ Gyoto::Metric::ReissnerNordstrom::~ReissnerNordstrom()
 // Mutators
 void ReissnerNordstrom::charge(const double charge) {
   charge_=charge;
+  tellListeners();
 }
 
 // Accessors
-- 
2.43.0


From 132fe7058743dad738eb62befc57b1d5076e6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 088/105] fix: trajectories ignored a change of Shift::offset

---
 lib/Shift.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Shift.C b/lib/Shift.C
index 4dbbae6..a46ef53 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -92,6 +92,7 @@ void Shift::offset(std::vector<double> const &v) {
   if (v.size() !=4)
     GYOTO_ERROR("Shift offset needs exactly 4 tokens"); 
   for (int i=0; i<4; ++i) offset_[i]=v[i];
+  tellListeners();
 }
 
 std::vector<double> Shift::offset() const {
-- 
2.43.0


From 76d12751f0aaed12a679a2364a6cc5093ffd1184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 089/105] fix: trajectories ignored changes of the parameters
 of RezzollaZhidenko

---
 lib/RezzollaZhidenko.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 6dfed4d..aec8cec 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -45,7 +45,8 @@ GYOTO_PROPERTY_VECTOR_DOUBLE(RezzollaZhidenko, BParam, bparam,
 GYOTO_PROPERTY_END(RezzollaZhidenko, Generic::properties)
 
 // accessors
-GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, epsilon_, epsilon)
+void RezzollaZhidenko::epsilon(double e) {epsilon_=e; tellListeners();}
+double RezzollaZhidenko::epsilon() const {return epsilon_;}
 GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, rms_, rms)
 GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, rmb_, rmb)
 
@@ -59,6 +60,7 @@ void RezzollaZhidenko::aparam(std::vector<double> const &v) {
     if (aparam_[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
   }
   for (size_t i=n; i<GYOTO_NBPARAM_MAX; ++i) aparam_[i]=0.;
+  tellListeners();
 }
 std::vector<double> RezzollaZhidenko::aparam() const {
   std::vector<double> v(GYOTO_NBPARAM_MAX, 0.);
@@ -75,6 +77,7 @@ void RezzollaZhidenko::bparam(std::vector<double> const &v) {
     if (bparam_[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
   }
   for (size_t i=n; i<GYOTO_NBPARAM_MAX; ++i) bparam_[i]=0.;
+  tellListeners();
 }
 std::vector<double> RezzollaZhidenko::bparam() const {
   std::vector<double> v(GYOTO_NBPARAM_MAX, 0.);
-- 
2.43.0


From 29044ab0e073e358153855480cec1efe2728b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:34 +0000
Subject: [PATCH 090/105] fix: trajectories ignored changes of the deformations
 of KonoplyaRezzollaZhidenko

---
 lib/KonoplyaRezzollaZhidenko.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index 1bdf3a4..f31d130 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -66,6 +66,7 @@ void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
   if (nonzero_count == 0) {
     // No deformation: valid whatever the spin
     for (size_t i=0; i<GYOTO_NB_DELTAHOR_MAX; ++i) deltashorizon_[i]=0.;
+    tellListeners();
     return;
   }
   if (spin_ == 0.) GYOTO_ERROR("null spin case not supported");
@@ -104,6 +105,7 @@ void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
     }
   }
   for (size_t i=n; i<GYOTO_NB_DELTAHOR_MAX; ++i) deltashorizon_[i]=0.;
+  tellListeners();
 }
 std::vector<double> KonoplyaRezzollaZhidenko::deltashorizon() const {
   std::vector<double> v(GYOTO_NB_DELTAHOR_MAX, 0.);
@@ -125,6 +127,7 @@ void KonoplyaRezzollaZhidenko::deltasasymptotics(std::vector<double> const &v) {
     deltasasymptotics_[i]=v[i];
   }
   for (size_t i=n; i<GYOTO_NB_DELTAINF_MAX; ++i) deltasasymptotics_[i]=0.;
+  tellListeners();
 }
 std::vector<double> KonoplyaRezzollaZhidenko::deltasasymptotics() const {
   std::vector<double> v(GYOTO_NB_DELTAINF_MAX, 0.);
-- 
2.43.0


From 63ca58397f3473acdc1927389fe86afcf29999ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:53 +0000
Subject: [PATCH 091/105] fix: gyoto saved uninitialised memory for the pixels
 outside the requested field

---
 bin/gyoto.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index 226506f..957c982 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -580,7 +580,8 @@ int main(int argc, char** argv) {
                //nb of frames used for diverse interesting outputs
                //(obs flux, impact time, redshift..)
     size_t nelt=res*res*nbdata;
-    vect = new double[nelt];
+    // pixels which are not requested are left blank
+    vect = new double[nelt]();
 
     // First check whether we can open file
     int naxis=3; 
@@ -660,6 +661,7 @@ int main(int argc, char** argv) {
       // Allocate if requested AND not provided
       GYOTO_DEBUG << "allocating data->impactcoords" << endl;
       ::data->impactcoords = impactcoords = new double [res*res*16];
+      for (size_t ii=0; ii<res*res*16; ++ii) impactcoords[ii]=DBL_MAX;
       ipcttime = tobs * GYOTO_C / scenery -> metric() -> unitLength();
     }
     if (quantities & GYOTO_QUANTITY_USER1) {
-- 
2.43.0


From aec7bb2dd09ef2312fe5dd5b0d9fb70667ecb345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:53 +0000
Subject: [PATCH 092/105] fix: gyoto --no-sigfpe enabled SIGFPE

---
 bin/gyoto.C | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index 957c982..dec7afe 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -388,12 +388,7 @@ int main(int argc, char** argv) {
   for (int i = 0; i < parse.optionsCount(); ++i) {
     option::Option& opt = buffer[i];
     switch(opt.index()) {
-    case NOSIGFPE:
-#if defined HAVE_FENV_H
-      GYOTO_DEBUG << "enabling SIGFPE delivery\n";
-      feenableexcept(FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID);
-#endif
-      break;
+    case NOSIGFPE: break; // SIGFPE is not enabled by default
     case BOUNDARIES:
       {
 	double valtest=Gyoto::atof(opt.arg);
-- 
2.43.0


From cfa47be66944aee2cd7fe6667dfb7756db555f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:53 +0000
Subject: [PATCH 093/105] fix: gyoto took empty or reversed pixel ranges as
 very large ones

---
 bin/gyoto.C | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index dec7afe..9a184ae 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -562,6 +562,11 @@ int main(int argc, char** argv) {
     if (debug()) cerr << "DEBUG: Gyoto.C: Requested Quantities: "
 		      << quantities <<endl;
 
+    if (imax>res) imax=res;
+    if (jmax>res) jmax=res;
+    if (imin<1 || imin>imax || di<1 || jmin<1 || jmin>jmax || dj<1)
+      throwError("Requested field is empty or outside the screen");
+
     size_t nbnuobs=0;
     if (quantities & GYOTO_QUANTITY_SPECTRAL) {
       SmartPointer<Spectrometer::Generic> spr = screen -> spectrometer();
@@ -750,9 +755,6 @@ int main(int argc, char** argv) {
 
     curmsg = "In gyoto.C: Error during ray-tracing: ";
 
-    if (imax>res) imax=res;
-    if (jmax>res) jmax=res;
-
     Screen::Range irange(imin, imax, di);
     Screen::Range jrange(jmin, jmax, dj);
     Screen::Grid  grid(irange, jrange, "\rj = ");
-- 
2.43.0


From ae0d93da859b2da1d9da11b320c3449b5d2dc35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:53 +0000
Subject: [PATCH 094/105] fix: Factory::write(): an unwritable file ended the
 program with a foreign exception, no file with a null string

---
 lib/Factory.C | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Factory.C b/lib/Factory.C
index e21c4cc..2f2b851 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -732,7 +732,7 @@ void Factory::screen(SmartPointer<Screen> scr, DOMElement *el) {
 }
 
 void Factory::write(const char* const goutputfile) {
-  filename_ = goutputfile;
+  if (goutputfile) filename_ = goutputfile;
   // write file
   DOMLSSerializer   *theSerializer
     = (static_cast<DOMImplementationLS*>(impl_))->createLSSerializer();
@@ -744,9 +744,15 @@ void Factory::write(const char* const goutputfile) {
 
   if (serializerConfig->canSetParameter(XMLUni::fgDOMWRTFormatPrettyPrint,true))
     serializerConfig->setParameter(XMLUni::fgDOMWRTFormatPrettyPrint, true);
-  if (goutputfile)
-    myFormTarget=new LocalFileFormatTarget(goutputfile);
-  else
+  if (goutputfile) {
+    try {
+      myFormTarget=new LocalFileFormatTarget(goutputfile);
+    } catch (XMLException const &) {
+      theOutputDesc->release();
+      theSerializer->release();
+      GYOTO_ERROR(string("Cannot write to file ")+goutputfile);
+    }
+  } else
     myFormTarget=new StdOutFormatTarget();
   
   theOutputDesc->setByteStream(myFormTarget);
-- 
2.43.0


From 9eace6794dca880e9f4c3ff2d1d0481a5eb700da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:34 +0000
Subject: [PATCH 095/105] fix: with MPI, several spectral quantities overwrote
 each other

---
 lib/Scenery.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 2d9ac6f..93031c1 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -492,23 +492,23 @@ void Scenery::rayTrace(Screen::Coord2dSet & ij,
       locdata->user5=vect+offset*(curquant++);
     }
     if (quantities & GYOTO_QUANTITY_SPECTRUM) {
-      locdata->spectrum=vect+offset*(curquant++);
+      locdata->spectrum=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
     if (quantities & GYOTO_QUANTITY_SPECTRUM_STOKES_Q) {
-      locdata->stokesQ=vect+offset*(curquant++);
+      locdata->stokesQ=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
     if (quantities & GYOTO_QUANTITY_SPECTRUM_STOKES_U) {
-      locdata->stokesU=vect+offset*(curquant++);
+      locdata->stokesU=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
     if (quantities & GYOTO_QUANTITY_SPECTRUM_STOKES_V) {
-      locdata->stokesV=vect+offset*(curquant++);
+      locdata->stokesV=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
     if (quantities & GYOTO_QUANTITY_BINSPECTRUM) {
-      locdata->binspectrum=vect+offset*(curquant++);
+      locdata->binspectrum=vect+offset*curquant; curquant+=nbnuobs;
       locdata->offset=int(offset);
     }
 
-- 
2.43.0


From ba2712d6622aca0706e7c09f89ac9fb288e8c229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 096/105] fix: PatternDisk read outside its grid at the edges
 and ignored the rotation of the pattern

getIndices() follows the pattern (Omega_, t0_) but emission() and
getVelocity() interpolated at the azimuth in the fixed frame, so that
they failed ("bad interpolation") as soon as the pattern rotates. On or
outside the first and last radius, on the last azimuth and between the
last and the first one, indices -1, nr_ and nphi_ were used.
---
 include/GyotoPatternDisk.h |  2 ++
 lib/PatternDisk.C          | 50 ++++++++++++++++++++------------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/GyotoPatternDisk.h b/include/GyotoPatternDisk.h
index 857a211..7ed4901 100644
--- a/include/GyotoPatternDisk.h
+++ b/include/GyotoPatternDisk.h
@@ -264,6 +264,8 @@ class Gyoto::Astrobj::PatternDisk : public Astrobj::ThinDisk {
   double phimax() const; ///< Get PatternDisk::phimax_
 
  protected:
+  double patternPhi(double const co[4]) const ;
+  ///< Azimuth in the frame rotating with the pattern, within the grid
   void getIndices(size_t i[3], double const co[4], double nu=0.) const ;
   ///< Get emission_ cell corresponding to position co[4]
 
diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 58954a3..9cc8373 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -598,6 +598,17 @@ void PatternDisk::fitsWrite(std::string filename, const std::string & prefix) {
 }
 #endif
 
+double PatternDisk::patternPhi(double const co[4]) const {
+  // azimuth with respect to the (rotating) pattern, from phimin_
+  double phi = sphericalPhi(co) - Omega_*(co[0]-t0_);
+  double period = repeat_phi_>1 ?
+    (phimax_-phimin_)/double(repeat_phi_) : 2.*M_PI;
+  phi = fmod(phi-phimin_, 2.*M_PI);
+  if (phi<0.) phi += 2.*M_PI;
+  // wrap phi if the disk is periodic with period repeat_phi_
+  return fmod(phi, period)+phimin_;
+}
+
 void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
   GYOTO_DEBUG << "dnu_="<<dnu_<<", dphi_="<<dphi_<<", dr_="<<dr_<<endl;
   if (nu <= nu0_) i[0] = 0;
@@ -606,15 +617,7 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
     if (i[0] >= nnu_) i[0] = nnu_-1;
   }
   double r = projectedRadius(co);
-  double phi = sphericalPhi(co);
-  double t = co[0];
-
-  phi -= Omega_*(t-t0_);
-
-  while (phi<0) phi += 2.*M_PI;
-
-  if (repeat_phi_>1) phi=fmod((phi-phimin_),(phimax_-phimin_)/double(repeat_phi_))+phimin_;
-  // wrap phi if the disk is periodic with period repeat_phi_
+  double phi = patternPhi(co);
 
   if (nphi_>1){
     if (phi<phimin_) //Possible: any phi value is in the grid anyway
@@ -623,7 +626,8 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
       i[1]=nphi_;
     else {
       i[1] = size_t(floor((phi-phimin_)/dphi_)+1); // % (nphi_-1);
-      if (i[1]==0 || i[1]==nphi_){
+      if (i[1]>=nphi_) i[1]=nphi_-1; // phi==phimax_
+      if (i[1]==0){
 	cerr << "iphi stuff= " << phi << " " << dphi_ << " " << nphi_ << " " << floor((phi-phimin_)/dphi_) << " " << i[1] << endl;
 	GYOTO_ERROR("In PatternDisk:getIndices: bad i[1]");
       }				
@@ -643,14 +647,15 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
   if (radius_) {
     GYOTO_DEBUG <<"radius_ != NULL" << endl;
     // if the radius_ vector is set, find closest value
-    if (r >= radius_[nr_-1]) i[2] = nr_;
+    if (r > radius_[nr_-1]) i[2] = nr_;
+    else if (r < radius_[0]) i[2] = 0;
     else {
-      for(i[2]=0; r > radius_[i[2]]; ++i[2]){}
+      for(i[2]=1; i[2] < nr_-1 && r > radius_[i[2]]; ++i[2]){}
       //cerr << "in indice --RAD: " << radius_[i[2]-1] << " " << r << " " << radius_[i[2]] << endl;
       /*
 	With this definition:
 	radius_[i[2]-1] <= r < radius_[i[2]]
-	Special case: i[2]=0 if r < radius_[0]
+	Special cases: i[2]=0 if r < radius_[0], nr_ if r > radius_[nr_-1]
        */
     }
   } else {
@@ -658,7 +663,7 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
     // radius_ is not set: assume linear repartition
     if (dr_==0.)
       GYOTO_ERROR("In PatternDisk::getIndices: dr_ should not be 0 here!");
-    i[2] = size_t(floor((r-rin_)/dr_)+1);
+    i[2] = r < rin_ ? 0 : size_t(floor((r-rin_)/dr_)+1);
     if (i[2] >= nr_) i[2] = nr_ - 1;
     //cerr << "in indice no radius --RAD: " << rin_ + (i[2]-1)*dr_ << " " << r << " " <<  rin_ + (i[2])*dr_ << endl;
   }
@@ -677,11 +682,9 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
     //cout << "in pattern getvel after getIndices" << endl;
     
     double rr = projectedRadius(pos);
-    double phi = sphericalPhi(pos);
+    double phi = patternPhi(pos);
 
-    if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
-
-    if (rr < rin_ || rr > rout_){
+    if (rr < rin_ || rr > rout_ || i[2]==0 || i[2]>=nr_){
       // Outside radial grid, emission is zero: put arbitrary velocity
       vel[0]=1;vel[1]=0;vel[2]=0;vel[3]=0;
       return;
@@ -811,16 +814,14 @@ double PatternDisk::emission(double nu, double dsem,
   getIndices(i, co, nu);
 
   double rr = projectedRadius(co);
-  double phi = sphericalPhi(co);
-
-  if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
+  double phi = patternPhi(co);
 
   //cout << "in emission r, phi= " << rr << " " << phi << endl;
   //cout << "and indices= " << i[0] << " " << i[1] << " " << i[2] << endl;
   //cout << "dphi= " << dphi_ << endl;
   // No emission outside radius limits
   //cerr << "r checks: " << rin_ << " " << rout_ << endl;
-  if (rr < rin_ || rr > rout_) return 0.;
+  if (rr < rin_ || rr > rout_ || i[2]==0 || i[2]>=nr_) return 0.;
   double Iem=0.;
 
   if (nnu_>1) GYOTO_ERROR("In PatternDisk: multifrequency case not implemented");
@@ -906,7 +907,7 @@ double PatternDisk::emission(double nu, double dsem,
   if (!flag_radtransf_) return Iem;
   double thickness;
   // NB: thickness is not interpolated so far
-  if (opacity_ && (thickness=opacity_[i[1]*nr_+i[2]]*dsem))
+  if (opacity_ && (thickness=opacity_[(i[1]%nphi_)*nr_+i[2]]*dsem))
     return Iem * (1. - exp (-thickness)) ;
   return 0.;
 }
@@ -917,8 +918,9 @@ double PatternDisk::transmission(double nu, double dsem, state_t const &, double
   if (!opacity_) return 1.;
   size_t i[3]; // {i_nu, i_phi, i_r}
   getIndices(i, co, nu);
+  if (i[2]==0 || i[2]>=nr_) return 1.; // outside the grid
   // NB: opacity is not interpolated so far
-  double opac = opacity_[i[1]*nr_+i[2]];
+  double opac = opacity_[(i[1]%nphi_)*nr_+i[2]];
   GYOTO_DEBUG << "nu="<<nu <<", dsem="<<dsem << ", opacity="<<opac <<endl;
   if (!opac) return 1.;
   return exp(-opac*dsem);
-- 
2.43.0


From fbddc7884a56fdf9a21768c4b3d5cfbd7a21f6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 097/105] fix: GridData2D read outside its arrays at their
 edges and interpolated in time from rmin

At r==rmax, phi==phimax or tmax the cell after the last one was used,
the search in the array of dates read after its end, and without array
of dates the upper date was computed from rmin_ instead of tmin_.
---
 lib/GridData2D.C | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/GridData2D.C b/lib/GridData2D.C
index deb4a2c..2343259 100644
--- a/lib/GridData2D.C
+++ b/lib/GridData2D.C
@@ -341,8 +341,9 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
   //cout << "in getInd R: " << rmin_ << " " << rmax_ << " " << nr_ << " " << dr_ << endl;
 
   if (rmin_>0. && rmax_<DBL_MAX && nr_>0. && dr_>0.) { // >1 radii must be properly defined
-    i[2] = size_t(floor((rr-rmin_)/dr_)); // index of closest grid point smaller than rr
+    i[2] = rr>rmin_ ? size_t(floor((rr-rmin_)/dr_)) : 0; // index of closest grid point smaller than rr
                                           // (and same for phi,t)
+    if (nr_>1 && i[2]+1>=nr_) i[2] = nr_-2; // rr==rmax_
   } else {
     GYOTO_ERROR("In GridData2D::getIndices: radius undefined!");
   }
@@ -355,8 +356,10 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
 	      i[1]=nphi_-1; // then phimin_+dphi_*(nphi_-1) < phi < phimin_ (modulo 2pi)
       else if (phi>phimax_)
 	      i[1]=nphi_-1; // idem
-      else
+      else {
 	      i[1] = size_t(floor((phi-phimin_)/dphi_)); // then phimin_+dphi_*i[1] < phi < phimin_ +dphi_*(i[1]+1)
+	      if (i[1]+1>=nphi_) i[1] = nphi_-2; // phi==phimax_
+      }
     }
     else          // then 1 phi value only, axisym
       i[1] = 0;
@@ -368,13 +371,14 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
   if (nt_>0.) {                                // necessary condition
     if (tmin_ > -DBL_MAX && tmax_<DBL_MAX) // >1 time values provided
       if (tt<tmin_) i[0]=0;        // assuming stationnarity before tmin_
-      else if (tt>tmax_) i[0]=nt_-1;//                       and after tmax_
+      else if (tt>=tmax_) i[0]=nt_-1;//                       and after tmax_
       else {
         if (!time_array){
           i[0] = size_t(floor((tt-tmin_)/dt_));
+          if (i[0]+1>=nt_) i[0] = nt_>1 ? nt_-2 : 0;
         }else{
           size_t i_t=0;
-          while (tt>time_array[i_t] && tt>time_array[i_t+1] && i_t<nt_-1) { // search of i_t
+          while (i_t+2<nt_ && tt>time_array[i_t+1]) { // search of i_t
             i_t+=1;
           }
           i[0]=i_t;
@@ -469,7 +473,7 @@ double GridData2D::interpolate(double tt, double phi, double rcyl,
       tu = time_array[itu];
     }else{
       tl = tmin_+dt_*itl;
-      tu = rmin_+dt_*itu;
+      tu = tmin_+dt_*itu;
     }
 
     double ratiot = (tt-tl)/(tu-tl),
-- 
2.43.0


From 92128f0be010395c0950bfece63c23076e08d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 098/105] fix: timeTranslation_inMunit() accumulated in the
 dates but not in tmin and tmax

---
 lib/FlaredDiskSynchrotron.C | 8 ++++----
 lib/ThinDiskGridIntensity.C | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/FlaredDiskSynchrotron.C b/lib/FlaredDiskSynchrotron.C
index 6b9a30b..3b05f7b 100644
--- a/lib/FlaredDiskSynchrotron.C
+++ b/lib/FlaredDiskSynchrotron.C
@@ -154,17 +154,17 @@ double FlaredDiskSynchrotron::hoverR() const {
 
 void FlaredDiskSynchrotron::timeTranslation_inMunit(double const dt) {
   double tmin=GridData2D::tmin(), tmax=GridData2D::tmax();
-  GridData2D::tmin(tmin-deltat_+dt);
-  GridData2D::tmax(tmax-deltat_+dt);
-  deltat_=dt;
   if (GridData2D::nt()==0)
     GYOTO_ERROR("In FlaredDiskSynchrotron::timeTranslation nt not yet defined");
   int nt = GridData2D::nt();
   if (!time_array_)
     GYOTO_ERROR("In FlaredDiskSynchrotron::timeTranslation time_array_ not defined. Please use FlaredDiskSynchrotron::file(string) before this function");
+  GridData2D::tmin(tmin-deltat_+dt);
+  GridData2D::tmax(tmax-deltat_+dt);
   for (int ii=0;ii<nt;ii++){
-    time_array_[ii]+=dt;
+    time_array_[ii]+=dt-deltat_;
   }
+  deltat_=dt;
   if (GridData2D::tmin()>0)
     cout << "\nWARNING : tmin is positive, in most cases the stationnary boundary condition will be applied. You should decrease more timeTranslation_inMunit until at least " << -tmin << "\n" << endl;
 }
diff --git a/lib/ThinDiskGridIntensity.C b/lib/ThinDiskGridIntensity.C
index 4ffc66b..fc71121 100644
--- a/lib/ThinDiskGridIntensity.C
+++ b/lib/ThinDiskGridIntensity.C
@@ -104,17 +104,17 @@ std::string ThinDiskGridIntensity::file() const {
 
 void ThinDiskGridIntensity::timeTranslation_inMunit(double const dt) {
   double tmin=GridData2D::tmin(), tmax=GridData2D::tmax();
-  GridData2D::tmin(tmin-deltat_+dt);
-  GridData2D::tmax(tmax-deltat_+dt);
-  deltat_=dt;
   if (GridData2D::nt()==0)
     GYOTO_ERROR("In ThinDiskGridIntensity::timeTranslation nt not yet defined");
   int nt = GridData2D::nt();
   if (!time_array_)
     GYOTO_ERROR("In ThinDiskGridIntensity::timeTranslation time_array_ not defined. Please use ThinDiskGridIntensity::file(string) before this function");
+  GridData2D::tmin(tmin-deltat_+dt);
+  GridData2D::tmax(tmax-deltat_+dt);
   for (int ii=0;ii<nt;ii++){
-    time_array_[ii]+=dt;
+    time_array_[ii]+=dt-deltat_;
   }
+  deltat_=dt;
   if (GridData2D::tmin()>0)
     cout << "\nWARNING : tmin is positive, in most cases the stationnary boundary condition will be applied. You should decrease more timeTranslation_inMunit until at least " << -tmin << "\n" << endl;
 }
-- 
2.43.0


From 4594b32d2c41f8bb53a3cce9587b7505a66389e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:41 +0000
Subject: [PATCH 099/105] fix: Disk3D drifted by one cell at each repetition of
 its pattern

The pattern covers nphi_-1 steps of dphi_, not nphi_.
---
 lib/Disk3D.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Disk3D.C b/lib/Disk3D.C
index ab7c07b..0102729 100644
--- a/lib/Disk3D.C
+++ b/lib/Disk3D.C
@@ -657,6 +657,10 @@ void Disk3D::getIndices(size_t i[4], double const co[4], double nu) const {
   while (phi<0) phi += 2.*M_PI;
   while (phi>2.*M_PI) phi -= 2.*M_PI;
 
+  // wrap phi if the disk is periodic
+  if (repeat_phi_>1 && phi>=phimin_ && phi<=phimax_)
+    phi = fmod(phi-phimin_, (phimax_-phimin_)/double(repeat_phi_)) + phimin_;
+
   if (phi<phimin_) //Possible: any phi value is in the grid anyway
     i[1]=0;
   else if (phi>phimax_)
-- 
2.43.0


From a537d71afbdb2c54a35eee5488d319a54a231760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:08 +0000
Subject: [PATCH 100/105] fix: Disk3D::phimin() and phimax() forgot the
 repetition of the pattern

---
 lib/Disk3D.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Disk3D.C b/lib/Disk3D.C
index 0102729..a6478a3 100644
--- a/lib/Disk3D.C
+++ b/lib/Disk3D.C
@@ -271,13 +271,13 @@ double Disk3D::zmax() const {return zmax_;}
 
 void Disk3D::phimin(double phimn) {
   phimin_ = phimn;
-  if (nphi_>1) dphi_ = (phimax_-phimin_) / double(nphi_-1);
+  if (nphi_>1) dphi_ = (phimax_-phimin_) / double((nphi_-1)*repeat_phi_);
 }
 double Disk3D::phimin() const {return phimin_;}
 
 void Disk3D::phimax(double phimx) {
   phimax_ = phimx;
-  if (nphi_>1) dphi_ = (phimax_-phimin_) / double(nphi_-1);
+  if (nphi_>1) dphi_ = (phimax_-phimin_) / double((nphi_-1)*repeat_phi_);
 }
 double Disk3D::phimax() const {return phimax_;}
 
-- 
2.43.0


From e7ea8cecec22f38c32d46004eb069097dc24b29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:21 +0000
Subject: [PATCH 101/105] fix: GridData2D wrote past its array of dates when
 the file holds more dates than time slices

---
 lib/GridData2D.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/GridData2D.C b/lib/GridData2D.C
index 2343259..1f5893e 100644
--- a/lib/GridData2D.C
+++ b/lib/GridData2D.C
@@ -191,7 +191,9 @@ vector<size_t> GridData2D::fitsReadHDU(fitsfile* fptr,
       throwCfitsioError(status) ;
     GYOTO_DEBUG << "GridData2D::fitsRead(): get image size" << endl;
     if (fits_get_img_size(fptr, 1, naxe, &status)) throwCfitsioError(status) ;
-    
+    if (size_t(naxe[0]) != nt_)
+      GYOTO_ERROR("GridData2D::fitsReadHDU: the number of dates differs from "
+		  "the length of the time axis");
 
     if (dest) { delete [] dest; dest = NULL; }
     dest = new double[nt_];
-- 
2.43.0


From 4e96aef20005eee9765e6388160215c44631dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:10 +0000
Subject: [PATCH 102/105] fix: GridData2D refused points at a grid node because
 of round-off errors

---
 lib/GridData2D.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/GridData2D.C b/lib/GridData2D.C
index 1f5893e..33327ed 100644
--- a/lib/GridData2D.C
+++ b/lib/GridData2D.C
@@ -346,6 +346,7 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
     i[2] = rr>rmin_ ? size_t(floor((rr-rmin_)/dr_)) : 0; // index of closest grid point smaller than rr
                                           // (and same for phi,t)
     if (nr_>1 && i[2]+1>=nr_) i[2] = nr_-2; // rr==rmax_
+    if (i[2]>0 && rmin_+dr_*i[2]>rr) --i[2]; // round-off error at a node
   } else {
     GYOTO_ERROR("In GridData2D::getIndices: radius undefined!");
   }
@@ -361,6 +362,7 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
       else {
 	      i[1] = size_t(floor((phi-phimin_)/dphi_)); // then phimin_+dphi_*i[1] < phi < phimin_ +dphi_*(i[1]+1)
 	      if (i[1]+1>=nphi_) i[1] = nphi_-2; // phi==phimax_
+	      if (i[1]>0 && phimin_+dphi_*i[1]>phi) --i[1]; // round-off error at a node
       }
     }
     else          // then 1 phi value only, axisym
@@ -378,6 +380,7 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
         if (!time_array){
           i[0] = size_t(floor((tt-tmin_)/dt_));
           if (i[0]+1>=nt_) i[0] = nt_>1 ? nt_-2 : 0;
+          if (i[0]>0 && tmin_+dt_*i[0]>tt) --i[0]; // round-off error at a node
         }else{
           size_t i_t=0;
           while (i_t+2<nt_ && tt>time_array[i_t+1]) { // search of i_t
-- 
2.43.0


From 28f4f9a4b6ff2468ddb7075beec781dc9fa5c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:02 +0000
Subject: [PATCH 103/105] fix: PatternDisk refused points at a grid node
 because of round-off errors

---
 lib/PatternDisk.C | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 9cc8373..1ac8a3d 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -670,6 +670,12 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
 
 }
 
+// Is x in [low, high], up to round-off errors?
+static bool inCell(double x, double low, double high) {
+  double tol = 1e-10*(fabs(low)+fabs(high));
+  return x >= low-tol && x <= high+tol;
+}
+
 void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
   //cerr << "In pattern get vel" << endl;
   if (velocity_) {
@@ -710,7 +716,7 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
 	radhigh = rin_ + double(i[2])*dr_;
       }
 
-      if (rr<radlow || rr>radhigh){
+      if (!inCell(rr, radlow, radhigh)){
 	//cout << "r= " << i[2] << " " <<  radlow << " " << rr << " " << radhigh << endl;
 	GYOTO_ERROR("In PatternDisk::getVelocity: "
 		   "bad radial interpolation");
@@ -765,7 +771,7 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
 
       //cout << "rin sup, phi inf sup, r phi: " << radlow << " " << radhigh << " " << philow << " " << phihigh << " " << rr << " " << phi << endl;
 
-      if (phi<philow || phi>phihigh || rr<radlow || rr>radhigh){
+      if (!inCell(phi, philow, phihigh) || !inCell(rr, radlow, radhigh)){
 	//cout << "r, phis= " << i[2] << " " <<  radlow << " " << rr << " " << radhigh << " " << philow << " " << phi << " " << phihigh << endl;
 	GYOTO_ERROR("In PatternDisk::getVelocity: "
 		   "bad interpolation");
@@ -840,7 +846,7 @@ double PatternDisk::emission(double nu, double dsem,
       radhigh = rin_ + double(i[2])*dr_;
     }
 
-    if (rr<radlow || rr>radhigh){
+    if (!inCell(rr, radlow, radhigh)){
       //cout << "r= " << i[2] << " " <<  radlow << " " << rr << " " << radhigh << endl;
       GYOTO_ERROR("In PatternDisk::emission: "
 		 "bad radial interpolation");
@@ -890,7 +896,7 @@ double PatternDisk::emission(double nu, double dsem,
     
     //cout << " In emission rin sup, phi inf sup, r phi: " << radlow << " " << radhigh << " " << philow << " " << phihigh << " " << rr << " " << phi << endl;
     
-    if (phi<philow || phi>phihigh || rr<radlow || rr>radhigh){
+    if (!inCell(phi, philow, phihigh) || !inCell(rr, radlow, radhigh)){
       cout << "phi: " << philow << " " << phi << " " << phihigh << endl;
       cout << "r: " << radlow << " " << rr << " " << radhigh << endl;
       GYOTO_ERROR("In PatternDisk::emission: "
-- 
2.43.0


From e7afe20a7c72b6187cceb63b3834cc519215b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:06 +0000
Subject: [PATCH 104/105] fix: the binned spectrum of an InflateStar ignored
 the dilution of its emission

---
 include/GyotoInflateStar.h |  4 ++++
 lib/InflateStar.C          | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/GyotoInflateStar.h b/include/GyotoInflateStar.h
index 9350260..b7fb03d 100644
--- a/include/GyotoInflateStar.h
+++ b/include/GyotoInflateStar.h
@@ -100,6 +100,10 @@ class Gyoto::Astrobj::InflateStar :
 		     Astrobj::Properties *data=NULL);
   virtual double emission(double nu_em, double dsem,
 			  state_t const &cp, double const co[8]=NULL) const;
+  using Star::integrateEmission;
+  virtual double integrateEmission(double nu1, double nu2, double dsem,
+				   state_t const &cp,
+				   double const co[8]=NULL) const;
 };
 
 
diff --git a/lib/InflateStar.C b/lib/InflateStar.C
index f9799b6..9a78f90 100644
--- a/lib/InflateStar.C
+++ b/lib/InflateStar.C
@@ -137,3 +137,15 @@ double InflateStar::emission(double nu_em, double dsem,
   return volumei/volume * UniformSphere::emission(nu_em, dsem, coord_ph, coord_obj);
 
 }
+
+double InflateStar::integrateEmission(double nu1, double nu2, double dsem,
+				      state_t const &coord_ph,
+				      double const coord_obj[8]) const {
+  double radinit = radius();
+  double radcur=radiusAt(coord_ph[0]);
+  double volume=radcur*radcur*radcur;
+  double volumei=radinit*radinit*radinit;
+
+  return volumei/volume
+    * UniformSphere::integrateEmission(nu1, nu2, dsem, coord_ph, coord_obj);
+}
-- 
2.43.0


From 06b824026523d42e9350edc54bde1d8e00dca28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 105/105] fix: an integration that went astray hung for ever
 bringing its angles back in range

---
 lib/Worldline.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 47a1736..977f4cf 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1280,6 +1280,10 @@ void Worldline::checkPhiTheta(double coord[8]) const{
     /* Transforms theta and phi in coord so that 
        theta is in [0,pi] and phi in [0,2pi] */
     double thetatmp=coord[2], phitmp=coord[3];
+    // Angles far out of range (integration gone astray): subtracting
+    // turns one by one would take forever, or never end
+    if (!(fabs(thetatmp)<1e4)) thetatmp=fmod(thetatmp, 2.*M_PI);
+    if (!(fabs(phitmp)<1e4)) phitmp=fmod(phitmp, 2.*M_PI);
     while (thetatmp>M_PI) thetatmp-=2.*M_PI;
     while (thetatmp<-M_PI) thetatmp+=2.*M_PI;//then theta in [-pi,pi]
     if (thetatmp<0.) {
-- 
2.43.0

