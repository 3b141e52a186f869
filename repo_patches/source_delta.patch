From 5d5d2de599418c20b1e83f7e8f5ec2606015da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:29 +0000
Subject: [PATCH 01/41] fix: DynamicalDisk clones lost the time grid (nb_times_
 reset to 0)

---
 lib/DynamicalDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DynamicalDisk.C b/lib/DynamicalDisk.C
index d7e60f1..0ebf65d 100644
--- a/lib/DynamicalDisk.C
+++ b/lib/DynamicalDisk.C
@@ -72,7 +72,7 @@ DynamicalDisk::DynamicalDisk(const DynamicalDisk& o) :
   dirname_(NULL),
   tinit_(o.tinit_),
   dt_(o.dt_),
-  nb_times_(0),
+  nb_times_(o.nb_times_),
   nnu_(o.nnu_), nphi_(o.nphi_), nr_(o.nr_),
   emission_array_(NULL),
   velocity_array_(NULL),
-- 
2.43.0


From 74d6673263c9043b695a9320e80c7575c2a6c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:29 +0000
Subject: [PATCH 02/41] fix: KonoplyaRezzollaZhidenko copy took spin3_ from
 spin4_

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index f7f7c2f..c058b15 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -148,7 +148,7 @@ Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko()
 
 Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko(const KonoplyaRezzollaZhidenko & orig)
   : Generic(orig),
-    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin4_), spin4_(orig.spin4_),
+    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin3_), spin4_(orig.spin4_),
     rms_(orig.rms_), deltashorizon_(NULL), deltasasymptotics_(NULL)
 {
   GYOTO_DEBUG << endl;
-- 
2.43.0


From 5c86c3b2b3bc531e516974b702cc536a95935082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:29 +0000
Subject: [PATCH 03/41] fix: RezzollaZhidenko copy took rmb_ from rms_

---
 lib/RezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 7f01d9a..5de4427 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -100,7 +100,7 @@ Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko()
 
 Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko(const RezzollaZhidenko & orig)
   : Generic(orig),
-    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rms_), aparam_(NULL), bparam_(NULL)
+    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rmb_), aparam_(NULL), bparam_(NULL)
 {
   GYOTO_DEBUG << endl;
   aparam_ = new double[GYOTO_NBPARAM_MAX];
-- 
2.43.0


From 859890450fb8d193f1536011c2731b491f01c0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:29 +0000
Subject: [PATCH 04/41] fix: NeutronStarModelAtmosphere clones lost their file
 name

---
 lib/NeutronStarModelAtmosphere.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/NeutronStarModelAtmosphere.C b/lib/NeutronStarModelAtmosphere.C
index b27f3d0..02e6faf 100644
--- a/lib/NeutronStarModelAtmosphere.C
+++ b/lib/NeutronStarModelAtmosphere.C
@@ -85,6 +85,7 @@ NeutronStar("NeutronStarModelAtmosphere"),
 
 NeutronStarModelAtmosphere::NeutronStarModelAtmosphere(const NeutronStarModelAtmosphere& o) :
   NeutronStar(o),
+  filename_(o.filename_),
   emission_(NULL), surfgrav_(NULL), cosi_(NULL), freq_(NULL),
   nnu_(o.nnu_), ni_(o.ni_), nsg_(o.nsg_),
   average_over_angle_(o.average_over_angle_)
-- 
2.43.0


From 123adfcb507fa234fc1375d188ceff2a54a41633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:29 +0000
Subject: [PATCH 05/41] fix: OscilTorus clones lost EmittingArea

---
 lib/OscilTorus.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/OscilTorus.C b/lib/OscilTorus.C
index 9c28938..8f85d89 100644
--- a/lib/OscilTorus.C
+++ b/lib/OscilTorus.C
@@ -169,6 +169,7 @@ Gyoto::Astrobj::OscilTorus::OscilTorus(const OscilTorus &orig)
     central_density_(orig.central_density_),
     perturb_kind_(orig.perturb_kind_),
     perturb_intens_(orig.perturb_intens_),
+    emitting_area_(orig.emitting_area_),
     kerrbl_(NULL),
     tt_(orig.tt_),
     area_(orig.area_),
-- 
2.43.0


From 956a2a2adbc23c23a8a8728536579a5edddf235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:29 +0000
Subject: [PATCH 06/41] fix: NumericalMetricLorene clones lost mass, step
 limits and plugins

---
 lib/NumericalMetricLorene.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/NumericalMetricLorene.C b/lib/NumericalMetricLorene.C
index fa1bfee..4f45fca 100644
--- a/lib/NumericalMetricLorene.C
+++ b/lib/NumericalMetricLorene.C
@@ -103,7 +103,7 @@ NumericalMetricLorene::NumericalMetricLorene() :
 }
 
 NumericalMetricLorene::NumericalMetricLorene(const NumericalMetricLorene&o) :
-  Generic(GYOTO_COORDKIND_SPHERICAL,"NumericalMetricLorene"),
+  Generic(o),
   filename_(NULL),
   mapet_(o.mapet_),
   axisymCirc_(o.axisymCirc_),
-- 
2.43.0


From 487dede6a2317878af858b0de107b2b2f381d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 07/41] fix: Photon copies lost the transmission at freqObs and
 all but the first transmission matrix

---
 lib/Photon.C | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index 1021a89..6a6211f 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -83,12 +83,14 @@ Photon::Photon(const Photon& o) :
     spectro_ = o.spectro_ -> clone();
     _allocateTransmission();
     _allocateTransmissionMatrix();
+    // allocating resets the transmissions at freq_obs_
+    transmission_freqobs_ = o.transmission_freqobs_;
+    transmissionMatrix_freqobs_ = o.transmissionMatrix_freqobs_;
     if (size_t nsamples = spectro_->nSamples()){
       memcpy(transmission_, o.getTransmission(), nsamples*sizeof(double));
-      // Eigen::Matrix4d has a non trivial constructor,
-      // let's construct it normally with new, then copy
-      _allocateTransmissionMatrix();
-      *transmissionMatrix_ = *(o.transmissionMatrix_);
+      // Eigen::Matrix4d has a non trivial constructor, copy one by one
+      for (size_t i = 0; i < nsamples; ++i)
+	transmissionMatrix_[i] = o.transmissionMatrix_[i];
     }
   }
 }
-- 
2.43.0


From 37a430ea2badb910b5808f134f60ec975fc4aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:36 +0000
Subject: [PATCH 08/41] fix: Photon never freed its transmission arrays

---
 include/GyotoPhoton.h |  2 ++
 lib/Photon.C          | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/GyotoPhoton.h b/include/GyotoPhoton.h
index 86a1106..72ec19d 100644
--- a/include/GyotoPhoton.h
+++ b/include/GyotoPhoton.h
@@ -389,6 +389,8 @@ class Gyoto::Photon::Refined : public Gyoto::Photon {
  public:
   Refined(Photon *parent, size_t i, int dir, double step_max);
   ///< Constructor
+  virtual ~Refined();
+  ///< Destructor: leaves the transmissions to *parent_
   virtual void transmit(size_t i, double t);
   ///< Update transmission both in *this and in *parent_
   virtual void transmit(size_t i, Eigen::Matrix4d mat);
diff --git a/lib/Photon.C b/lib/Photon.C
index 6a6211f..3dae130 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -159,7 +159,16 @@ Photon::Photon(SmartPointer<Metric::Generic> met,
   spectrometer(screen);
 }
 
-Photon::~Photon() {}
+Photon::~Photon() {
+  if (transmission_) delete [] transmission_;
+  if (transmissionMatrix_) delete [] transmissionMatrix_;
+}
+
+Photon::Refined::~Refined() {
+  // these belong to parent_
+  transmission_ = NULL;
+  transmissionMatrix_ = NULL;
+}
 
 /* TRANSMISSION STUFF */
 void Photon::_allocateTransmission() {
-- 
2.43.0


From 28d3203e6091fe561fbfb84575eaddde592ee498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:50 +0000
Subject: [PATCH 09/41] fix: Scenery clones lost the units of the requested
 quantities

---
 lib/Scenery.C | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 27023a1..895ac51 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -148,6 +148,11 @@ Scenery::Scenery(const Scenery& o) :
   screen_(NULL), delta_(o.delta_),
   quantities_(o.quantities_), ph_(o.ph_),
   nthreads_(o.nthreads_), nprocesses_(0)
+#ifdef HAVE_UDUNITS
+  , intensity_converter_(o.intensity_converter_),
+  spectrum_converter_(o.spectrum_converter_),
+  binspectrum_converter_(o.binspectrum_converter_)
+#endif
 #ifdef HAVE_MPI
   , mpi_team_(NULL)
 #endif
-- 
2.43.0


From a61fa5aceb226b4afa14a2f48c894d1b2d926f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:50 +0000
Subject: [PATCH 10/41] fix: clones of Metric::Shift shared their sub-metric
 and did not listen to it

---
 include/GyotoShift.h |  1 +
 lib/Shift.C          | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/GyotoShift.h b/include/GyotoShift.h
index 184d6c2..8a9c384 100644
--- a/include/GyotoShift.h
+++ b/include/GyotoShift.h
@@ -55,6 +55,7 @@ class Gyoto::Metric::Shift
   // This is the bare minimum of what a Metric class must implement:
   GYOTO_OBJECT;
   Shift();
+  Shift(const Shift&);
   virtual ~Shift();
   virtual Shift* clone() const ;
 
diff --git a/lib/Shift.C b/lib/Shift.C
index 7d7c006..cd6b9c2 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -54,6 +54,16 @@ Shift::Shift() :
 Generic(GYOTO_COORDKIND_CARTESIAN, "Shift"),
   submet_(NULL)
 {for (int i=0; i<4; ++i) offset_[i]=0.;}
+Shift::Shift(const Shift &o) :
+Generic(o), Hook::Listener(o),
+  submet_(NULL)
+{
+  for (int i=0; i<4; ++i) offset_[i]=o.offset_[i];
+  if (o.submet_()) {
+    submet_=o.submet_->clone();
+    submet_->hook(this);
+  }
+}
 Shift* Shift::clone() const { return new Shift(*this); }
 Shift::~Shift(){
   if (submet_) submet_->unhook(this);
-- 
2.43.0


From 060330f28bec59a2c4465c2f99b7be6d224122be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:33 +0000
Subject: [PATCH 11/41] fix: clones of photons and stars lost Integ31

---
 lib/WorldlineIntegState.C | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index b89290a..99df448 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -119,7 +119,11 @@ Worldline::IntegState::Legacy::Legacy(Worldline *parent) : Generic(parent)
 
 Worldline::IntegState::Legacy *
 Worldline::IntegState::Legacy::clone(Worldline *newparent) const
-{ return new Legacy(newparent); }
+{
+  Legacy * res = new Legacy(newparent);
+  res -> integ_31_ = integ_31_;
+  return res;
+}
 
 void
 Worldline::IntegState::Legacy::init(Worldline * line,
@@ -234,7 +238,11 @@ void Worldline::IntegState::Boost::init()
 
 Worldline::IntegState::Boost *
 Worldline::IntegState::Boost::clone(Worldline*newparent) const
-{ return new Boost(newparent, kind_); }
+{
+  Boost * res = new Boost(newparent, kind_);
+  res -> integ_31_ = integ_31_;
+  return res;
+}
 
 
 
-- 
2.43.0


From 51a2b82ddc6be5ff738d73061ba58372a424e5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:33 +0000
Subject: [PATCH 12/41] fix: setting the integrator discarded Integ31

---
 lib/Worldline.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index aa5fd53..66ef0e3 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -372,12 +372,15 @@ void Worldline::tell(Gyoto::Hook::Teller* msg) {
 }
 
 void Worldline::integrator(std::string const &type) {
+  // integ31 is kept by the state but independent from the integrator
+  bool integ = state_ ? state_->integ31() : false;
   if (type=="Legacy") state_ = new IntegState::Legacy(this);
 #ifdef GYOTO_HAVE_BOOST_INTEGRATORS
   else state_ = new IntegState::Boost(this, type);
 #else
   else GYOTO_ERROR("unrecognized integrator (recompile with boost?)");
 #endif
+  state_->integ31(integ);
 }
 
 std::string Worldline::integrator() const {
-- 
2.43.0


From 80567ab575e10cbfff2ec36bf2585362e973d037 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:01:31 +0000
Subject: [PATCH 13/41] fix: FromMeters multiplied by c instead of dividing for
 time units

---
 lib/Converters.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Converters.C b/lib/Converters.C
index e2933e1..ca0ed9e 100644
--- a/lib/Converters.C
+++ b/lib/Converters.C
@@ -220,7 +220,7 @@ double Gyoto::Units::FromMeters(double val, const string &unit,
 # ifdef HAVE_UDUNITS
   Unit to (unit);
   if (areConvertible(to, *Meter)) return Meter->From(val, to);
-  if (areConvertible(to, *Second)) return Second->From(val*GYOTO_C, to);
+  if (areConvertible(to, *Second)) return Second->From(val/GYOTO_C, to);
   return FromHerz(GYOTO_C/val, unit);
 # else
   if (unit=="cm")          return val * 1e2;
-- 
2.43.0


From 2e7dda0366758779d19d4f9a450a7250eb46ed49 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:01:31 +0000
Subject: [PATCH 14/41] fix: Blob TimeRef and TimeSigma could not be read back
 in geometrical_time

---
 lib/Blob.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Blob.C b/lib/Blob.C
index 7c154d1..a260954 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -286,7 +286,7 @@ double Blob::timeRef(string const &unit) const
   double tt = timeRef();
   if (unit != "") {
 # ifdef HAVE_UDUNITS
-    tt = Units::Converter("s", unit)(tt);
+    tt = Units::FromSeconds(tt, unit, gg_);
 # else
     GYOTO_WARNING << "Units ignored, please recompile Gyoto with --with-udunits"
 		  << endl ;
@@ -335,7 +335,7 @@ double Blob::timeSigma(string const &unit) const
   double tt = timeSigma();
   if (unit != "") {
 # ifdef HAVE_UDUNITS
-    tt = Units::Converter("s", unit)(tt);
+    tt = Units::FromSeconds(tt, unit, gg_);
 # else
     GYOTO_WARNING << "Units ignored, please recompile Gyoto with --with-udunits"
 		  << endl ;
-- 
2.43.0


From c3adb171806a79fb423f1a71962de03740045a25 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:01:31 +0000
Subject: [PATCH 15/41] fix: reading the band of a logarithmic spectrometer in
 a unit inverted log and power

---
 lib/UniformSpectrometer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index 2c711b0..f157ba8 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -236,7 +236,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_== FreqLogKind) {
     if (unit != "" && unit != "Hz")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromHerz(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromHerz(pow(10., vnu[i]), unit));
   } else if (kindid_== WaveKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
@@ -244,7 +244,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_ == WaveLogKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromMeters(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromMeters(pow(10., vnu[i]), unit));
   } else {
     GYOTO_ERROR("Uniform::band(string const &unit) at loss: "
 	       "please specify Spectrometer kind");
-- 
2.43.0


From 2471336416995b3082ca3996778110b617184db2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:01:31 +0000
Subject: [PATCH 16/41] fix: DirectionalDisk LampCutOffsIneV was read back in
 Hz

---
 lib/DirectionalDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DirectionalDisk.C b/lib/DirectionalDisk.C
index 4a4015a..d3686c6 100644
--- a/lib/DirectionalDisk.C
+++ b/lib/DirectionalDisk.C
@@ -252,7 +252,7 @@ void DirectionalDisk::lampcutoffsinev(std::vector<double> const &v) {
 
 std::vector<double> DirectionalDisk::lampcutoffsinev() const {
   std::vector<double> v (2, 0.);
-  v[0]=minfreq_lampframe_; v[1]=maxfreq_lampframe_;
+  v[0]=minfreq_lampframe_/GYOTO_eV2Hz; v[1]=maxfreq_lampframe_/GYOTO_eV2Hz;
   return v;
 }
 
-- 
2.43.0


From 91adf4eb1a785531cfe5355dbd0b0c78884fc599 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:01:32 +0000
Subject: [PATCH 17/41] fix: SimBridge EmissionType BB was read back as
 BlackBody, which is not accepted

---
 lib/SimBridge.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/SimBridge.C b/lib/SimBridge.C
index c7e36ab..1efe31a 100644
--- a/lib/SimBridge.C
+++ b/lib/SimBridge.C
@@ -375,7 +375,7 @@ void SimBridge::emissionType(std::string const &kind){
   else if (kind == "PL")
     emission_ = "PL";
   else if (kind == "BB")
-    emission_ = "BlackBody";
+    emission_ = "BB";
   else
     GYOTO_ERROR("unknown electron distribution!");
 }
@@ -660,7 +660,7 @@ void SimBridge::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
         spectrumPLSynch_->gamma_min(gammaMin_);
         spectrumPLSynch_->gamma_max(gammaMax_);
         spectrumPLSynch_->radiativeQ(jInu, jQnu, jUnu, jVnu, aInu, aQnu, aUnu, aVnu, rotQnu, rotUnu, rotVnu, nuem, nbnu);   
-      }else if (emission_=="BlackBody"){
+      }else if (emission_=="BB"){
         spectrumBB_->temperature(temperature);
         for (size_t ii=0; ii<nbnu; ++ii){
           jInu[ii]=(*spectrumBB_)(nuem[ii]);
-- 
2.43.0


From 67e12a398b202ec63787a4736fafc210b49976c0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 10:23:32 +0000
Subject: [PATCH 18/41] fix: ColorCorrection of a BlackBody spectrum changed
 its Temperature

Setting it twice, or writing the spectrum to XML and reading it back,
compounded the correction; setting Temperature afterwards dropped it.
---
 include/GyotoBlackBodySpectrum.h | 2 +-
 lib/BlackBodySpectrum.C          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/GyotoBlackBodySpectrum.h b/include/GyotoBlackBodySpectrum.h
index d1b3151..acd64b9 100644
--- a/include/GyotoBlackBodySpectrum.h
+++ b/include/GyotoBlackBodySpectrum.h
@@ -57,7 +57,7 @@ class Gyoto::Spectrum::BlackBody : public Gyoto::Spectrum::Generic {
  protected:
   double T_; ///< Temperature (K)
   double cst_; ///< Scaling constant
-  double Tm1_; ///< 1./T_;
+  double Tm1_; ///< 1./(T_*colorcor_);
   double colorcor_; ///< Color-correction factor, see def in Suleimanov et al., A&A 527 A139 (2011), Eq. 23
   double colorcorm4_; ///< colorcor_ to power -4.
 
diff --git a/lib/BlackBodySpectrum.C b/lib/BlackBodySpectrum.C
index bbd2f35..3104a8e 100644
--- a/lib/BlackBodySpectrum.C
+++ b/lib/BlackBodySpectrum.C
@@ -49,12 +49,12 @@ Spectrum::BlackBody * Spectrum::BlackBody::clone() const
 { return new Spectrum::BlackBody(*this); }
 
 double Spectrum::BlackBody::temperature() const { return T_; }
-void Spectrum::BlackBody::temperature(double c) { T_ = c; Tm1_=1./T_; }
+void Spectrum::BlackBody::temperature(double c) { T_ = c; Tm1_=1./(T_*colorcor_); }
 double Spectrum::BlackBody::scaling() const { return cst_; }
 void Spectrum::BlackBody::scaling(double c) { cst_ = c; }
 double Spectrum::BlackBody::colorCorrection() const { return colorcor_; }
 void Spectrum::BlackBody::colorCorrection(double c) {
-  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); T_*=c; Tm1_/=c;}
+  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); Tm1_=1./(T_*c);}
 
 double Spectrum::BlackBody::operator()(double nu) const {
   return  colorcorm4_*cst_*nu*nu*nu
-- 
2.43.0


From dcb62f2510d69614e4bdb22412afe03e0010fa7f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 11:07:18 +0000
Subject: [PATCH 19/41] fix: DynamicalDisk3D and DynamicalDiskBolometric were
 saved as their base kind

---
 lib/DynamicalDisk3D.C         | 1 +
 lib/DynamicalDiskBolometric.C | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/DynamicalDisk3D.C b/lib/DynamicalDisk3D.C
index b71d24c..5e2f276 100644
--- a/lib/DynamicalDisk3D.C
+++ b/lib/DynamicalDisk3D.C
@@ -67,6 +67,7 @@ DynamicalDisk3D::DynamicalDisk3D() :
   velocity_array_(NULL)
 {
   GYOTO_DEBUG << "DynamicalDisk3D Construction" << endl;
+  kind("DynamicalDisk3D");
   spectrumBB_ = new Spectrum::BlackBody(); 
 }
 
diff --git a/lib/DynamicalDiskBolometric.C b/lib/DynamicalDiskBolometric.C
index 6871b6b..b93a060 100644
--- a/lib/DynamicalDiskBolometric.C
+++ b/lib/DynamicalDiskBolometric.C
@@ -53,6 +53,7 @@ DynamicalDiskBolometric::DynamicalDiskBolometric() :
   DynamicalDisk()
 {
   GYOTO_DEBUG << "DynamicalDiskBolometric Construction" << endl;
+  kind("DynamicalDiskBolometric");
 }
 
 DynamicalDiskBolometric::DynamicalDiskBolometric(const DynamicalDiskBolometric& o) :
-- 
2.43.0


From 63abf4f343b7deef6b84aa4b2ffa82e6d0445c7a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 11:16:21 +0000
Subject: [PATCH 20/41] fix: thread-safety of a Screen property asked an empty
 property instead

---
 lib/Object.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object.C b/lib/Object.C
index 97ff279..5d07364 100644
--- a/lib/Object.C
+++ b/lib/Object.C
@@ -82,7 +82,7 @@ bool Object::isThreadSafe() const {
 	child=SmartPointer<Metric::Generic>(get(*prop));
 	break;
       case Property::screen_t:
-	child=SmartPointer<Screen>(get(prop));
+	child=SmartPointer<Screen>(get(*prop));
 	break;
       case Property::astrobj_t:
 	child=SmartPointer<Astrobj::Generic>(get(*prop));
-- 
2.43.0


From d1208df4d3fc5684933606a391fdeeda96ff54b3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 11:21:36 +0000
Subject: [PATCH 21/41] fix: Standard(double) left DeltaInObj uninitialised

---
 lib/StandardAstrobj.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/StandardAstrobj.C b/lib/StandardAstrobj.C
index 4401491..ea50bf9 100644
--- a/lib/StandardAstrobj.C
+++ b/lib/StandardAstrobj.C
@@ -72,7 +72,8 @@ Standard::Standard() :
 
 Standard::Standard(double radmax) :
   Generic(radmax),
-  critical_value_(DBL_MIN), safety_value_(DBL_MAX)
+  critical_value_(DBL_MIN), safety_value_(DBL_MAX),
+  delta_inobj_(0.05)
 {
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG << endl;
-- 
2.43.0


From 72abf57746db09604d8ab970174ae3e6bd9be205 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 11:21:36 +0000
Subject: [PATCH 22/41] fix: StarTrace built from initial conditions left TMin
 and TMax uninitialised

---
 lib/StarTrace.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/StarTrace.C b/lib/StarTrace.C
index cc4818f..53e1bf6 100644
--- a/lib/StarTrace.C
+++ b/lib/StarTrace.C
@@ -54,7 +54,7 @@ StarTrace::StarTrace() : Star(), tmin_(0.), tmax_(0.)
 StarTrace::StarTrace(SmartPointer<Metric::Generic> met, double rad,
 		double const pos[4],
 		double const v[3]) :
-  Star(met, rad, pos, v)
+  Star(met, rad, pos, v), tmin_(0.), tmax_(0.)
 {
   Generic::kind_="StarTrace";
   xAllocateXYZ();
-- 
2.43.0


From bc2467f975ff4ab3212a5a64293734e99c3505d2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 11:21:36 +0000
Subject: [PATCH 23/41] fix: PolishDoughnut read DeltaWm1_ uninitialised before
 Lambda was set

---
 lib/PolishDoughnut.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PolishDoughnut.C b/lib/PolishDoughnut.C
index 5f7c8c3..aaab916 100644
--- a/lib/PolishDoughnut.C
+++ b/lib/PolishDoughnut.C
@@ -99,7 +99,7 @@ PolishDoughnut::PolishDoughnut() :
   r_cusp_(0.),
   r_centre_(0.),
   r_torusouter_(0.),
-//DeltaWm1_(),
+  DeltaWm1_(0.),
   central_enthalpy_cgs_(1.),
   central_temperature_(1e10),
   beta_(0.),
-- 
2.43.0


From 59898799e965ed2e4c017133b68312e7a3f3db61 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:00:27 +0000
Subject: [PATCH 24/41] fix: BalasinGrumiller Christoffel symbols used a wrong
 theta-derivative of W

---
 lib/BalasinGrumiller.C | 300 ++++++++++++++++++++---------------------
 1 file changed, 150 insertions(+), 150 deletions(-)

diff --git a/lib/BalasinGrumiller.C b/lib/BalasinGrumiller.C
index ad883d8..e41f16f 100644
--- a/lib/BalasinGrumiller.C
+++ b/lib/BalasinGrumiller.C
@@ -1,150 +1,150 @@
-﻿/*
-    Copyright 2025 Filipe Costa, Frédéric Vincent, Thibaut Paumard
-
-    This file is part of Gyoto.
-
-    Gyoto is free software: you can redistribute it and/or modify
-    it under the terms of the GNU General Public License as published by
-    the Free Software Foundation, either version 3 of the License, or
-    (at your option) any later version.
-
-    Gyoto is distributed in the hope that it will be useful,
-    but WITHOUT ANY WARRANTY; without even the implied warranty of
-    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-    GNU General Public License for more details.
-
-    You should have received a copy of the GNU General Public License
-    along with Gyoto.  If not, see <http://www.gnu.org/licenses/>.
- */
-
-
-#include <iostream>
-#include <string>
-#include <sstream>
-
-
-#include "GyotoUtils.h"
-#include "GyotoWorldline.h"
-#include "GyotoBalasinGrumiller.h"
-#include "GyotoError.h"
-#include "GyotoProperty.h"
-#include <cmath>
-
-using namespace std ; 
-using namespace Gyoto ; 
-using namespace Gyoto::Metric ;
-
-// **** Section I - Contructor, metric and Christoffel symbols ******
-GYOTO_PROPERTY_START(BalasinGrumiller, "your custom description")
-GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, V0, V0value,
-		      "V0 (adimensioned, 0.000733333).")
-GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, R, Rvalue, "R (kpc, 100).")
-GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, r0, r0value, "r0 (kpc, 1).")
-GYOTO_PROPERTY_END(BalasinGrumiller, Generic::properties)
-
-BalasinGrumiller::BalasinGrumiller()
-  : Gyoto::Metric::Generic(GYOTO_COORDKIND_SPHERICAL, "BalasinGrumiller"),
-V0value_(0.000733333), Rvalue_(100.), r0value_(1.) {
-  } 
-
-//cloner
-BalasinGrumiller* BalasinGrumiller::clone() const { return new BalasinGrumiller(*this); }
-
-// Mutators
-void BalasinGrumiller::V0value(const double a) {
-  V0value_=a;
- tellListeners();
-}
-
-void BalasinGrumiller::Rvalue(const double a) {
-  Rvalue_=a;
- tellListeners();
-}
-
-void BalasinGrumiller::r0value(const double a) {
-  r0value_=a;
- tellListeners();
-}
-
-// Accessors
-double BalasinGrumiller::V0value() const { return V0value_ ; }
-double BalasinGrumiller::Rvalue() const { return Rvalue_ ; }
-double BalasinGrumiller::r0value() const { return r0value_ ; }
-
-void BalasinGrumiller::gmunu(double g[4][4], const double * pos) const
-{
-double r = pos[1]; // Extract radial coordinate
-double theta = pos[2]; // Extract theta coordinate
-  double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta)) 
-         - sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta)) 
-         + sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta)) 
-         + sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-  // double DWDr = (V0value_ * (-(r - Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-  //        - (r + Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-  //        + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-  //        + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-  // double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
-  //        1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-  //        - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-  //        - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-  //        + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-  size_t mu, nu;
-  for (mu=0; mu<4; ++mu)
-    for (nu=mu+1; nu<4; ++nu)
-      g[mu][nu]=g[nu][mu]=0;
-	
-g[0][0] = - 1.0;
-g[0][3] = g[3][0]= W;
-g[1][1] = 1.0;
-g[2][2] = r * r;
-g[3][3] = r * r * sin(theta) * sin(theta)-W*W; // sin(theta)^2
-
-}
-
-int BalasinGrumiller::christoffel(double dst[4][4][4], const double pos[8]) const {
-//  GYOTO_DEBUG<<endl;
-  size_t alpha, mu, nu;
-  for (alpha=0; alpha<4; ++alpha)
-    for (mu=0; mu<4; ++mu)
-      for (nu=0; nu<4; ++nu)
-	dst[alpha][mu][nu]=0.; // Initialize to zero
-
-  double r=pos[1], theta=pos[2];
-double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta)) 
-         - sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta)) 
-         + sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta)) 
-         + sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-  double DWDr = (V0value_ * (-(r - Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-         - (r + Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-         + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-         + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-  double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
-         1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-         + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
-
-
-dst[0][0][1] = dst[0][1][0] = (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
-dst[0][0][2] = dst[0][2][0] = (DWDth*W)/(2.0*r*r*sin(theta)*sin(theta));
-dst[0][1][3] = dst[0][3][1] = -0.5*(-2.0*W*r + DWDr*r*r + DWDr*W*W/(sin(theta)*sin(theta)))/(r*r);
-dst[0][2][3] = dst[0][3][2] = -0.5*DWDth + W*cos(theta)/sin(theta) - (DWDth*W*W)/(2.0*r*r*sin(theta)*sin(theta));
-dst[1][0][3] = dst[1][3][0] = -0.5*DWDr;
-dst[1][2][2] = -r;
-dst[1][3][3] = DWDr*W - r*sin(theta)*sin(theta);
-dst[2][0][3] = dst[2][3][0] = -0.5*DWDth/(r*r);
-dst[2][1][2] = dst[2][2][1] = 1.0/r;
-dst[2][3][3] = (DWDth*W)/(r*r) - cos(theta)*sin(theta);
-dst[3][0][1] = dst[3][1][0] = DWDr/(2.0*r*r*sin(theta)*sin(theta));
-dst[3][0][2] = dst[3][2][0] = DWDth/(2.0*r*r*sin(theta)*sin(theta));
-dst[3][1][3] = dst[3][3][1] = 1.0/r - (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
-dst[3][2][3] = dst[3][3][2] = cos(theta)/sin(theta) - (DWDth*W)/(2.0*r*r*sin(theta)*sin(theta));
-
-
-  return 0;
-}
-
+﻿/*
+    Copyright 2025 Filipe Costa, Frédéric Vincent, Thibaut Paumard
+
+    This file is part of Gyoto.
+
+    Gyoto is free software: you can redistribute it and/or modify
+    it under the terms of the GNU General Public License as published by
+    the Free Software Foundation, either version 3 of the License, or
+    (at your option) any later version.
+
+    Gyoto is distributed in the hope that it will be useful,
+    but WITHOUT ANY WARRANTY; without even the implied warranty of
+    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+    GNU General Public License for more details.
+
+    You should have received a copy of the GNU General Public License
+    along with Gyoto.  If not, see <http://www.gnu.org/licenses/>.
+ */
+
+
+#include <iostream>
+#include <string>
+#include <sstream>
+
+
+#include "GyotoUtils.h"
+#include "GyotoWorldline.h"
+#include "GyotoBalasinGrumiller.h"
+#include "GyotoError.h"
+#include "GyotoProperty.h"
+#include <cmath>
+
+using namespace std ; 
+using namespace Gyoto ; 
+using namespace Gyoto::Metric ;
+
+// **** Section I - Contructor, metric and Christoffel symbols ******
+GYOTO_PROPERTY_START(BalasinGrumiller, "your custom description")
+GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, V0, V0value,
+		      "V0 (adimensioned, 0.000733333).")
+GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, R, Rvalue, "R (kpc, 100).")
+GYOTO_PROPERTY_DOUBLE(BalasinGrumiller, r0, r0value, "r0 (kpc, 1).")
+GYOTO_PROPERTY_END(BalasinGrumiller, Generic::properties)
+
+BalasinGrumiller::BalasinGrumiller()
+  : Gyoto::Metric::Generic(GYOTO_COORDKIND_SPHERICAL, "BalasinGrumiller"),
+V0value_(0.000733333), Rvalue_(100.), r0value_(1.) {
+  } 
+
+//cloner
+BalasinGrumiller* BalasinGrumiller::clone() const { return new BalasinGrumiller(*this); }
+
+// Mutators
+void BalasinGrumiller::V0value(const double a) {
+  V0value_=a;
+ tellListeners();
+}
+
+void BalasinGrumiller::Rvalue(const double a) {
+  Rvalue_=a;
+ tellListeners();
+}
+
+void BalasinGrumiller::r0value(const double a) {
+  r0value_=a;
+ tellListeners();
+}
+
+// Accessors
+double BalasinGrumiller::V0value() const { return V0value_ ; }
+double BalasinGrumiller::Rvalue() const { return Rvalue_ ; }
+double BalasinGrumiller::r0value() const { return r0value_ ; }
+
+void BalasinGrumiller::gmunu(double g[4][4], const double * pos) const
+{
+double r = pos[1]; // Extract radial coordinate
+double theta = pos[2]; // Extract theta coordinate
+  double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta)) 
+         - sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta)) 
+         + sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta)) 
+         + sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+  // double DWDr = (V0value_ * (-(r - Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+  //        - (r + Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+  //        + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+  //        + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+  // double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
+  //        1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+  //        - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+  //        - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+  //        + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+  size_t mu, nu;
+  for (mu=0; mu<4; ++mu)
+    for (nu=mu+1; nu<4; ++nu)
+      g[mu][nu]=g[nu][mu]=0;
+	
+g[0][0] = - 1.0;
+g[0][3] = g[3][0]= W;
+g[1][1] = 1.0;
+g[2][2] = r * r;
+g[3][3] = r * r * sin(theta) * sin(theta)-W*W; // sin(theta)^2
+
+}
+
+int BalasinGrumiller::christoffel(double dst[4][4][4], const double pos[8]) const {
+//  GYOTO_DEBUG<<endl;
+  size_t alpha, mu, nu;
+  for (alpha=0; alpha<4; ++alpha)
+    for (mu=0; mu<4; ++mu)
+      for (nu=0; nu<4; ++nu)
+	dst[alpha][mu][nu]=0.; // Initialize to zero
+
+  double r=pos[1], theta=pos[2];
+double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta)) 
+         - sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta)) 
+         + sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta)) 
+         + sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+  double DWDr = (V0value_ * (-(r - Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+         - (r + Rvalue_*cos(theta)) / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+         + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+         + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+  double DWDth = (V0value_ * r * sin(theta) * (
+         - Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+         + Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+         + r0value_ / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+         - r0value_ / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+
+
+dst[0][0][1] = dst[0][1][0] = (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
+dst[0][0][2] = dst[0][2][0] = (DWDth*W)/(2.0*r*r*sin(theta)*sin(theta));
+dst[0][1][3] = dst[0][3][1] = -0.5*(-2.0*W*r + DWDr*r*r + DWDr*W*W/(sin(theta)*sin(theta)))/(r*r);
+dst[0][2][3] = dst[0][3][2] = -0.5*DWDth + W*cos(theta)/sin(theta) - (DWDth*W*W)/(2.0*r*r*sin(theta)*sin(theta));
+dst[1][0][3] = dst[1][3][0] = -0.5*DWDr;
+dst[1][2][2] = -r;
+dst[1][3][3] = DWDr*W - r*sin(theta)*sin(theta);
+dst[2][0][3] = dst[2][3][0] = -0.5*DWDth/(r*r);
+dst[2][1][2] = dst[2][2][1] = 1.0/r;
+dst[2][3][3] = (DWDth*W)/(r*r) - cos(theta)*sin(theta);
+dst[3][0][1] = dst[3][1][0] = DWDr/(2.0*r*r*sin(theta)*sin(theta));
+dst[3][0][2] = dst[3][2][0] = DWDth/(2.0*r*r*sin(theta)*sin(theta));
+dst[3][1][3] = dst[3][3][1] = 1.0/r - (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
+dst[3][2][3] = dst[3][3][2] = cos(theta)/sin(theta) - (DWDth*W)/(2.0*r*r*sin(theta)*sin(theta));
+
+
+  return 0;
+}
+
-- 
2.43.0


From e2af591c608864729a005bda3b00f040a1d08adc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:00:27 +0000
Subject: [PATCH 25/41] fix: KonoplyaRezzollaZhidenko dN2/dr ignored the
 asymptotic parameter a00

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index c058b15..a4b77a2 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -445,7 +445,7 @@ double KonoplyaRezzollaZhidenko::drN2(const double rr, const double th) const{
          k23 = DefineHorizonParameters(HorizonParameter::k23, r0);
          
   double drN2 = r0/rr2*(1.-epsilon0*r0/rr+(a00-epsilon0+k00)*r02/rr2+a01*r03/rr3)
-              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(k00-epsilon0)*r02/rr3-3.*a01*r03/rr4)
+              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(a00-epsilon0+k00)*r02/rr3-3.*a01*r03/rr4)
               -(2.*(k20+epsilon2)*r02/rr3
               +k21*k22*r04/rr5/((1.+(k23+k22)*(1.-r0/rr))*(1.+(k23+k22)*(1.-r0/rr)))
               +3.*(k21/(1.+k22*(1.-r0/rr)/(1.+k23*(1.-r0/rr)))+a20)*r03/rr4
-- 
2.43.0


From 5325fe906b14548b171572757a8c8002fe88da63 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:00:27 +0000
Subject: [PATCH 26/41] fix: Hayward gmunu_up(pos,0,3) was wrong for r<0

---
 lib/Hayward.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Hayward.C b/lib/Hayward.C
index 0e33e97..13308ca 100644
--- a/lib/Hayward.C
+++ b/lib/Hayward.C
@@ -344,7 +344,7 @@ double Hayward::gmunu_up(const double * pos, int mu, int nu) const
       if ((mu==1) && (nu==1)) return (a2_*r3+r5-2.*a2b2-2.*b2_*r2-2.*r4)/sigma/dm;
       if ((mu==2) && (nu==2)) return 1./sigma;
       if ((mu==3) && (nu==3)) return (a2_*r3*cth2-2.*a2b2*cth2+r5-2.*b2_*r2-2.*r4)/(a4_*r3*cth2+a2_*r5*cth2-2.*a4b2*cth2-2.*a2b2*r2*cth2+2.*a2_*r4*sth2+a2_*r5+r7-2.*a2b2*r2-2.*a2_*r4-2.*b2_*r4-2.*r6)/sth2;
-      if (((mu==0) && (nu==3)) || ((mu==3) && (nu==0)))return  -2.*spin_*r4/sigma/(a2_*r3+r5+2.*a2b2+2.*b2_*r2-2.*r4);
+      if (((mu==0) && (nu==3)) || ((mu==3) && (nu==0)))return  -2.*spin_*r4/sigma/(a2_*r3+r5-2.*a2b2-2.*b2_*r2-2.*r4);
     }
   
   return 0.;
-- 
2.43.0


From f2a410eddc7aafb5eceede004e591b8d1f79d76b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:04:42 +0000
Subject: [PATCH 27/41] fix: matrix4Invert gave a wrong inverse for dense
 matrices

---
 lib/Utils.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils.C b/lib/Utils.C
index 0f4e500..d78f56d 100644
--- a/lib/Utils.C
+++ b/lib/Utils.C
@@ -384,7 +384,7 @@ void Gyoto::matrix4Invert(double Am1[4][4], double const A[4][4]) {
     // subtract this row times of factor to each later row
     for (jj = j+1; jj < 4; ++jj) {
       fact = tmp[j][jj];
-      for (i=j+1; i<4; ++i) tmp[i][jj] -= fact*tmp[i][j];
+      for (i=j; i<4; ++i) tmp[i][jj] -= fact*tmp[i][j];
       for (i=0; i<4; ++i) Am1[i][jj] -= fact*Am1[i][j];
     }
   }
-- 
2.43.0


From 683f5dafb6d955a260ee01fd1240287d85f65882 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 28/41] fix: four metrics ignored Keplerian in circularVelocity

---
 lib/Hayward.C               | 7 +++++++
 lib/ReissnerNordstrom.C     | 7 +++++++
 lib/RezzollaZhidenko.C      | 7 +++++++
 lib/SchwarzschildHarmonic.C | 7 +++++++
 4 files changed, 28 insertions(+)

diff --git a/lib/Hayward.C b/lib/Hayward.C
index 13308ca..67b075e 100644
--- a/lib/Hayward.C
+++ b/lib/Hayward.C
@@ -99,6 +99,13 @@ double Hayward::getPotential(double const pos[4], double l_cst) const {
 
 void Hayward::circularVelocity(double const coor[4], double vel[4],
 			       double dir) const {
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Keplerian velocity instead of the true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG<<"coor=["<<coor[0]<<", "<<coor[1]<<", "<<coor[2]<<", "<<coor[3]
 	     <<"], dir="<<dir<<endl;
diff --git a/lib/ReissnerNordstrom.C b/lib/ReissnerNordstrom.C
index ebd093e..b6ade1f 100644
--- a/lib/ReissnerNordstrom.C
+++ b/lib/ReissnerNordstrom.C
@@ -139,6 +139,13 @@ int ReissnerNordstrom::isStopCondition(double const * const coord) const {
 
 void ReissnerNordstrom::circularVelocity(double const * coor, double* vel,
 					     double dir) const {
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Keplerian velocity instead of the true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
   double sinth = sin(coor[2]);
   double coord[4] = {coor[0], coor[1]*sinth, M_PI*0.5, coor[3]};
   if (charge_*charge_ > coord[1])
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 5de4427..0cc9b32 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -299,6 +299,13 @@ int RezzollaZhidenko::isStopCondition(double const * const coord) const {
 
 void RezzollaZhidenko::circularVelocity(double const coor[4], double vel[4],
 					double dir) const {
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Keplerian velocity instead of the true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
 
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG<<"coor=["<<coor[0]<<", "<<coor[1]<<", "<<coor[2]<<", "<<coor[3]
diff --git a/lib/SchwarzschildHarmonic.C b/lib/SchwarzschildHarmonic.C
index d8c0a72..911bbee 100644
--- a/lib/SchwarzschildHarmonic.C
+++ b/lib/SchwarzschildHarmonic.C
@@ -105,6 +105,13 @@ int SchwarzschildHarmonic::isStopCondition(double const * const coord) const {
 
 void SchwarzschildHarmonic::circularVelocity(double const * coor, double* vel,
 					     double dir) const {
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Keplerian velocity instead of the true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
   double sinth = sin(coor[2]);
   double rBL = coor[1]+1.;
   double coord[4] = {coor[0], rBL*sinth, M_PI*0.5, coor[3]};
-- 
2.43.0


From 56b75a1d21923d807d4f99c78a0dd8d3fdf4face Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:12:36 +0000
Subject: [PATCH 29/41] fix: RezzollaZhidenko circularVelocity ignored the
 sense of rotation

---
 lib/RezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 0cc9b32..657de2d 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -316,7 +316,7 @@ void RezzollaZhidenko::circularVelocity(double const coor[4], double vel[4],
 
   vel[1] = vel[2] = 0.;
   double Np = Nprime(rr), NN=sqrt(N2(rr));
-  vel[3] = sqrt(Np*NN/rr); // this is Omega=dphi/dt
+  vel[3] = dir*sqrt(Np*NN/rr); // this is Omega=dphi/dt
 
   vel[0] = SysPrimeToTdot(coord, vel+1); // dt/dtau
   vel[3] *= vel[0]; // dphi/dtau
-- 
2.43.0


From 9b34e50050d13941b39bbf9eda19a53a93cbb271 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:14:41 +0000
Subject: [PATCH 30/41] fix: ChernSimons circularVelocity ignored the sense of
 rotation

---
 lib/ChernSimons.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 7176b55..1faf716 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -319,7 +319,7 @@ void ChernSimons::circularVelocity(double const coor[4], double vel[4],
   // This is Omega_CS:
   vel[3] =
     (
-     aa*fact+56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
+     aa*fact+dir*56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
      )
     /
     (
-- 
2.43.0


From 9479ec1844436a2d62015866b2ff16bae6014232 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:28:24 +0000
Subject: [PATCH 31/41] fix: Photon::hit dereferenced User1 and User2 when only
 later orders were requested

---
 lib/Photon.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index 3dae130..e5ec888 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -1072,7 +1072,7 @@ int Photon::hit(Astrobj::Properties *data) {
 	  *data->user1=data->user4[0]; 
 	//cout << "saving order 0 spectrum of " << data->spectrum[0] << " " << *data->user1 << " at rc,z=" << coord[1]*sin(coord[2]) << " " << coord[1]*cos(coord[2]) << endl;
       }
-      if (data->user2 &&
+      if (data->user1 && data->user2 &&
 	  geodesic_order==1) {
 	if (data->spectrum)
 	  *data->user2=data->spectrum[0]-*data->user1;
@@ -1080,7 +1080,7 @@ int Photon::hit(Astrobj::Properties *data) {
 	  *data->user2=data->user4[0]-*data->user1;
 	//cout << "saving order 1 spectrum of " << data->spectrum[0] << " " << *data->user1 << " " << *data->user2 << " at rc,z=" << coord[1]*sin(coord[2]) << " " << coord[1]*cos(coord[2]) << endl;
       }
-      if (data->user3 &&
+      if (data->user1 && data->user2 && data->user3 &&
 	  geodesic_order==2) {
 	if (data->spectrum)
 	  *data->user3=data->spectrum[0]-*data->user1-*data->user2;
-- 
2.43.0


From 1dfd0facb237b034de3e4dac4db8c936e18fbc8b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:29:34 +0000
Subject: [PATCH 32/41] fix: processHitQuantities dereferenced Spectrum when
 only SpectrumStokesQ/U/V were requested

---
 lib/Astrobj.C | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index c5452a4..c4e3c51 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -370,9 +370,11 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
               << ", nuem=" << nuem[ii]
               << ", dsem=" << dsem
               << ", Inu * GM/c2="
-              << Inu[ii]
-              << ", spectrum[" << ii*data->offset << "]="
-              << data->spectrum[ii*data->offset];
+              << Inu[ii];
+              if (data->spectrum){
+                GYOTO_DEBUG << ", spectrum[" << ii*data->offset << "]="
+                << data->spectrum[ii*data->offset];
+              }
               if (data-> stokesQ){
                 GYOTO_DEBUG << ", stokesQ[" << ii*data->offset << "]="
                 << data->stokesQ[ii*data->offset];
@@ -408,7 +410,7 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				  	if (data -> spectrum_converter_)
 				    	inc = (*data -> spectrum_converter_)(inc);
 					#endif
-				  data->spectrum[ii*data->offset] += inc;
+				  if (data->spectrum) data->spectrum[ii*data->offset] += inc;
 				  ph -> transmit(ii,Taunu[ii]);
 
 					#if GYOTO_DEBUG_ENABLED
@@ -421,9 +423,11 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				    << ", nuem=" << nuem[ii]
 				    << ", dsem=" << dsem
 				    << ", Inu * GM/c2="
-				    << Inu[ii]
-				    << ", spectrum[" << ii*data->offset << "]="
-				    << data->spectrum[ii*data->offset]
+				    << Inu[ii];
+				  if (data->spectrum)
+				    GYOTO_DEBUG << ", spectrum[" << ii*data->offset << "]="
+				      << data->spectrum[ii*data->offset];
+				  GYOTO_DEBUG
 				    << ", transmission=" << t
 				    << ", optical depth=" << o
 				    << ", redshift=" << ggred << ")\n" << endl;
-- 
2.43.0


From 04362c576662b264bea95343c726a977de2952e5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:54:24 +0000
Subject: [PATCH 33/41] fix: Omatrix ignored the absorption when there is no
 polarized absorption nor Faraday rotation

---
 lib/Astrobj.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index c4e3c51..6f53904 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -813,8 +813,8 @@ Matrix4d Generic::Omatrix(double alphaInu, double alphaQnu, double alphaUnu, dou
   M4(3,3)=pow(aV,2)+pow(rV,2)-(alpha2+r2)/2.;
 	//cout << "M4 :\n" << M4 << endl;
 
-  if (Theta==0.)
-    return Matrix4d::Identity();
+  if (Theta==0.) // no polarization: only the absorption remains
+    return exp(-aI*dsem*gg_->unitLength())*Matrix4d::Identity();
   
   // Filling O matrix, output
   Onu=exp(-aI*dsem*gg_->unitLength())*\
-- 
2.43.0


From 9b7c100cef258f077e41446cfa4c136d73b4e84b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:54:24 +0000
Subject: [PATCH 34/41] fix: BinSpectrum was not attenuated, or twice, when
 requested together with Stokes parameters

---
 lib/Astrobj.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 6f53904..582075d 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -296,7 +296,7 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 		        << data->binspectrum[ii*data->offset]<< endl;
 				#endif
 
-				if (!data->spectrum) // else it will be done in spectrum
+				if (ph -> parallelTransport() || !(data->spectrum || data->stokesQ || data->stokesU || data->stokesV)) // else it will be done in spectrum
 				  ph -> transmit(ii,transmission(nuobs[ii]*ggredm1,dsem,coord_ph_hit, coord_obj_hit));
       }
       delete [] I;
-- 
2.43.0


From aa30bebbf3fc7dbf0f5695394be49da2f32651b0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 12:56:00 +0000
Subject: [PATCH 35/41] fix: default polarized radiativeQ returned the
 absorption coefficient instead of the transmission

---
 lib/Astrobj.C | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 582075d..803536a 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -648,7 +648,6 @@ void Generic::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
 
   // Compute the output from the non-polarized radiativeQ().
   double * Taunu = new double[nbnu];
-  double * alphaInu = new double[nbnu];
   Matrix4d identity;
   identity << 1, 0, 0, 0,
               0, 1, 0, 0,
@@ -661,16 +660,9 @@ void Generic::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
     Unu[i] = 0.;
     Vnu[i] = 0.;
     GYOTO_DEBUG_EXPR(Taunu[i]);
-    if (Taunu[i]<1e-6){
-    	//alphaInu[i] = std::numeric_limits<double>::infinity(); // Cause floatting point exception
-    	alphaInu[i] = 1.e300; // something very big 
-    }
-    else alphaInu[i] = -log(Taunu[i])/(dsem*gg_->unitLength());
-    GYOTO_DEBUG_EXPR(alphaInu[i]);
-    Onu[i]=identity*alphaInu[i]; //Default transmission matrix with all polarisation set to 0, MUST be reimplemented
+    Onu[i]=identity*Taunu[i]; //Default transmission matrix with all polarisation set to 0, MUST be reimplemented
   }
   delete [] Taunu;
-  delete [] alphaInu;
 }
 
 double Generic::get_theta_mag(double const fourvect[4], state_t const &coord_ph, double const vel[4]) const{
-- 
2.43.0


From c1f1654fc0b91312ecd72c59387b495f47a238e3 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 14:57:57 +0000
Subject: [PATCH 36/41] fix: polarization basis was not rotated with the field
 of view when Dangle1 or Dangle2 is set

---
 lib/Screen.C | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/Screen.C b/lib/Screen.C
index 9fd6825..e08baa3 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -808,6 +808,18 @@ void Screen::getRayTriad(double angle1, double angle2,
     double co, so; sincos(euler_[0], &so, &co); // changing name from p (for paln) to o (for Omega) to not confuse with phi
     double Ephi_screenBasis[3] = {-sb*sb*(1-ca)-ca, sb*cb*(1-ca), cb*sa};
     double Etheta_screenBasis[3] = {-sb*cb*(1-ca), (cb*cb*(1-ca)+ca), -sb*sa};
+    if (anglekind_ != spherical_angles) {
+      // Same rotation as for the photon direction
+      double c1, s1; sincos(dangle1_, &s1, &c1);
+      double c2, s2; sincos(dangle2_, &s2, &c2);
+      double *E[2] = {Ephi_screenBasis, Etheta_screenBasis};
+      for (i=0; i<2; ++i) {
+	double rot[3]={c1*E[i][0]+s1*E[i][2], E[i][1], -s1*E[i][0]+c1*E[i][2]};
+	E[i][0]=rot[0];
+	E[i][1]=c2*rot[1]-s2*rot[2];
+	E[i][2]=s2*rot[1]+c2*rot[2];
+      }
+    }
     if (observerkind_==GYOTO_OBSKIND_ATINFINITY){
       switch (gg_ -> coordKind()) {
       case GYOTO_COORDKIND_SPHERICAL:
-- 
2.43.0


From 1a02e68bde80eed86a86d92cc41f1aab8b6aeca8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 15:32:05 +0000
Subject: [PATCH 37/41] fix: in SchwarzschildHarmonic, a star at negative x was
 displaced to the wrong side

---
 lib/UniformSphere.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/UniformSphere.C b/lib/UniformSphere.C
index ae66837..ceb4823 100644
--- a/lib/UniformSphere.C
+++ b/lib/UniformSphere.C
@@ -151,7 +151,7 @@ double UniformSphere::operator()(double const coord[4]) {
   // in order to ease comparison between coordinate systems.
   if (gg_->kind()=="SchwarzschildHarmonic"){
     double r_st = sqrt(coord_st[1]*coord_st[1]+coord_st[2]*coord_st[2]+coord_st[3]*coord_st[3]);
-    double theta = acos(coord_st[3]/r_st), phi = atan(coord_st[2]/coord_st[1]);
+    double theta = acos(coord_st[3]/r_st), phi = atan2(coord_st[2], coord_st[1]);
     coord_st[1]+= sin(theta)*cos(phi);
     coord_st[2]+= sin(theta)*sin(phi);
     coord_st[3]+= cos(theta);
-- 
2.43.0


From 7c2a93c12606d89101b7431043e81f324666d5d6 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 38/41] fix: getCartesian did not give the time derivatives of
 the position for FreeStar, Blob and Plasmoid

---
 lib/Blob.C     | 11 ++++++++---
 lib/FreeStar.C | 11 ++++++++---
 lib/Plasmoid.C | 11 ++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/lib/Blob.C b/lib/Blob.C
index a260954..b9b70d9 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -853,9 +853,14 @@ void Blob::getCartesian(double const * const dates, size_t const n_dates,
 
   if (xprime!=NULL && yprime!=NULL && zprime!=NULL)
   {
-    xprime[0] = r*sin(theta)*sin(phi)*vel[2];
-    yprime[0] = -r*sin(theta)*cos(phi)*vel[2];
-    zprime[0] = 0.;
+    double pos[4] = {tt, r, theta, phi};
+    getVelocity(pos, vel);
+    double rdot=vel[1]/vel[0], thdot=vel[2]/vel[0], phdot=vel[3]/vel[0];
+    xprime[0] = (rdot*sin(theta) + r*cos(theta)*thdot)*cos(phi)
+      - r*sin(theta)*sin(phi)*phdot;
+    yprime[0] = (rdot*sin(theta) + r*cos(theta)*thdot)*sin(phi)
+      + r*sin(theta)*cos(phi)*phdot;
+    zprime[0] = rdot*cos(theta) - r*sin(theta)*thdot;
   }
 }
 
diff --git a/lib/FreeStar.C b/lib/FreeStar.C
index f2f225d..3e38395 100644
--- a/lib/FreeStar.C
+++ b/lib/FreeStar.C
@@ -192,9 +192,14 @@ void FreeStar::getCartesian(double const * const dates, size_t const n_dates,
 
   if (xprime!=NULL && yprime!=NULL && zprime!=NULL)
   {
-    xprime[0] = r*sin(theta)*sin(phi)*vel[2];
-    yprime[0] = -r*sin(theta)*cos(phi)*vel[2];
-    zprime[0] = 0.;
+    double pos[4] = {tt, r, theta, phi};
+    getVelocity(pos, vel);
+    double rdot=vel[1]/vel[0], thdot=vel[2]/vel[0], phdot=vel[3]/vel[0];
+    xprime[0] = (rdot*sin(theta) + r*cos(theta)*thdot)*cos(phi)
+      - r*sin(theta)*sin(phi)*phdot;
+    yprime[0] = (rdot*sin(theta) + r*cos(theta)*thdot)*sin(phi)
+      + r*sin(theta)*cos(phi)*phdot;
+    zprime[0] = rdot*cos(theta) - r*sin(theta)*thdot;
   }
 }
 
diff --git a/lib/Plasmoid.C b/lib/Plasmoid.C
index 3c977c2..f6411eb 100644
--- a/lib/Plasmoid.C
+++ b/lib/Plasmoid.C
@@ -594,9 +594,14 @@ void Plasmoid::getCartesian(double const * const dates, size_t const n_dates,
 
   if (xprime!=NULL && yprime!=NULL && zprime!=NULL)
   {
-    xprime[0] = r*sin(theta)*sin(phi)*vel[2];
-    yprime[0] = -r*sin(theta)*cos(phi)*vel[2];
-    zprime[0] = 0.;
+    double pos[4] = {tt, r, theta, phi};
+    getVelocity(pos, vel);
+    double rdot=vel[1]/vel[0], thdot=vel[2]/vel[0], phdot=vel[3]/vel[0];
+    xprime[0] = (rdot*sin(theta) + r*cos(theta)*thdot)*cos(phi)
+      - r*sin(theta)*sin(phi)*phdot;
+    yprime[0] = (rdot*sin(theta) + r*cos(theta)*thdot)*sin(phi)
+      + r*sin(theta)*cos(phi)*phdot;
+    zprime[0] = rdot*cos(theta) - r*sin(theta)*thdot;
   }
 }
 
-- 
2.43.0


From 9c0735fca4b6833ab945520751873a20fa41af12 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 39/41] fix: a Plasmoid in helical motion was given another
 angular velocity than that of its trajectory

---
 lib/Plasmoid.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Plasmoid.C b/lib/Plasmoid.C
index f6411eb..c51e780 100644
--- a/lib/Plasmoid.C
+++ b/lib/Plasmoid.C
@@ -616,7 +616,7 @@ void Plasmoid::getVelocity(double const pos[4], double vel[4]){
   	vel[0] = 1.;
   	vel[1] = fourveldt_[1];
   	vel[2] = 0.;
-  	vel[3] = fourveldt_[3];
+  	vel[3] = fourveldt_[3]*posIni_[1]*posIni_[1]/(pos[1]*pos[1]); // rate of phi along getCartesian
   	gg_->normalizeFourVel(pos, vel);
   }
   else if (flag_=="Helical-Ejection"){ // El Mellah+23
-- 
2.43.0


From 61d86bc89d2451d2a6882234e56836d2d689867d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 15:39:20 +0000
Subject: [PATCH 40/41] fix: the four-velocity of a DeformedTorus was not a
 unit vector

---
 lib/DeformedTorus.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/DeformedTorus.C b/lib/DeformedTorus.C
index e54cf4d..3bbd389 100644
--- a/lib/DeformedTorus.C
+++ b/lib/DeformedTorus.C
@@ -260,8 +260,10 @@ void DeformedTorus::getVelocity(double const pos[4], double vel[4])
 	       "Unrecognized perturbation kind");
   }
 
+  double utup = gtt-lc*gtp; // u^t/u_t
   double u_t2 = -1./
-    (gtt+lc*lc*gpp-2.*lc*gtp+drdt*drdt*grr+dthdt*dthdt*gthth);
+    (gtt+lc*lc*gpp-2.*lc*gtp
+     +utup*utup*(drdt*drdt/grr+dthdt*dthdt/gthth));
 
   if (u_t2 < 0.) {
     stringstream ss;
-- 
2.43.0


From ee1f0624d312ab261d5f960093c0da01fa90d8dd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 41/41] fix: StochasticThinDisk refused MotionKind Static, its
 default value

---
 lib/StochasticThinDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/StochasticThinDisk.C b/lib/StochasticThinDisk.C
index 3be6860..d7493a2 100644
--- a/lib/StochasticThinDisk.C
+++ b/lib/StochasticThinDisk.C
@@ -92,7 +92,7 @@ string StochasticThinDisk::equationKind() const {
 void StochasticThinDisk::motionKind(string const &kind) {
   if (kind == "Static")
     motionkind_ = STATIC;
-  if (kind == "Circular")
+  else if (kind == "Circular")
     motionkind_ = CIRCULAR;
   else if (kind == "Radial")
     motionkind_ = RADIAL;
-- 
2.43.0

