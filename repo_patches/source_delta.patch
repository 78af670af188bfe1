From 690ce0d1714ab57f493ca9349c86266503a9a6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 01/19] fix: GSL stepper accepted steps whose error exceeded
 the tolerance

gsl_odeiv2_control_hadjust returning GSL_ODEIV_HADJ_DEC means that the error of the step is above the tolerance,
so that the step has to be repeated from the saved state with the decreased step size (as in gsl_odeiv2_evolve_apply).
---
 CPPQEDutils/ODE_GSL.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/CPPQEDutils/ODE_GSL.h b/CPPQEDutils/ODE_GSL.h
index cad3086..b688383 100644
--- a/CPPQEDutils/ODE_GSL.h
+++ b/CPPQEDutils/ODE_GSL.h
@@ -66,21 +66,23 @@ public:
     
     gsl_odeiv2_system dydt{ControlledErrorStepperGSL::lowLevelSystemFunction,nullptr,totalExtent,&aux};
     
+    const ValueVector stateBefore(Data<StateType>::_(stateInOut),Data<StateType>::_(stateInOut)+totalExtent);
+
     auto step_status = gsl_odeiv2_step_apply (step_.get(), time, dtTry, Data<StateType>::_(stateInOut), yerr_->data(), nullptr, dydt_out_->data(), &dydt);
     
     if (step_status == GSL_EFAULT || step_status == GSL_EBADFUNC) throw std::runtime_error("GSL bad step_status");
 
-    if (step_status != GSL_SUCCESS) {
-      dtTry *= 0.5;
-      return bno::fail;
-    }
-    else {
-      time+=dtTry;
-      /* const auto hadjust_status = */
-      gsl_odeiv2_control_hadjust (control_.get(), step_.get(), Data<StateType>::_(stateInOut), yerr_->data(), dydt_out_->data(), &dtTry);
-      // if (hadjust_status == GSL_ODEIV_HADJ_DEC) throw std::runtime_error{"Unexpected change of dtTry in ControlledErrorStepperGSL::tryStep"};
+    const double dtDone=dtTry;
+
+    if (step_status != GSL_SUCCESS) dtTry *= 0.5;
+    else if (gsl_odeiv2_control_hadjust (control_.get(), step_.get(), Data<StateType>::_(stateInOut), yerr_->data(), dydt_out_->data(), &dtTry) != GSL_ODEIV_HADJ_DEC) {
+      time+=dtDone;
       return bno::success;
     }
+
+    // the step failed or its error exceeded the tolerance: the state is restored and the step is to be repeated with the decreased dtTry
+    std::copy(stateBefore.begin(),stateBefore.end(),Data<StateType>::_(stateInOut));
+    return bno::fail;
   }
   
 private:
-- 
2.43.0


From 5f03722ebbfb9f733c30fe4717eb987ce3cf1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 02/19] fix: relative and absolute tolerance were interchanged
 for the GSL stepper

---
 CPPQEDutils/ODE_GSL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDutils/ODE_GSL.h b/CPPQEDutils/ODE_GSL.h
index b688383..ba88069 100644
--- a/CPPQEDutils/ODE_GSL.h
+++ b/CPPQEDutils/ODE_GSL.h
@@ -115,7 +115,7 @@ struct MakeControlledErrorStepper<ControlledErrorStepperGSL<StateType>>
   static auto _(double epsRel, double epsAbs)
   {
     return ControlledErrorStepperWithParameters<ControlledErrorStepperGSL<StateType>>{
-      {epsRel,epsAbs},epsRel,epsAbs};
+      {epsAbs,epsRel},epsRel,epsAbs};
   }
 
   template <typename ParsBase>
-- 
2.43.0


From 2a877639545fdaaa7dda59c310d892b022cc21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:59 +0000
Subject: [PATCH 03/19] fix: origin of the interaction picture was not restored
 when an MCWF step is traced back

coherentTimeDevelopment moves t0_ to the end of the rejected step when the system has an exact part,
so that the repeated step started with an interaction-picture origin lying in its future.
---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 1646809..6d047d5 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -348,7 +348,7 @@ template<int RANK, typename ODE_Engine, typename RandomEngine>
 void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(double Dt, std::ostream& logStream)
 {
   const StateVector psiCache(psi_); // deep copy
-  double tCache=t_, dtDidCache=getDtDid();
+  double tCache=t_, t0Cache=t0_, dtDidCache=getDtDid();
 
   coherentTimeDevelopment(Dt,logStream);
 
@@ -358,7 +358,7 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(doub
     IndexSVL_tuples specialRates=calculateSpecialRates(&rates);
 
     while (manageTimeStep(rates,tCache,dtDidCache,logStream)) {
-      psi_=psiCache;
+      psi_=psiCache; t0_=t0Cache;
       coherentTimeDevelopment(Dt,logStream); // the next try
       rates=li->rates(t_,psi_);
       specialRates=calculateSpecialRates(&rates);
-- 
2.43.0


From 45dc3324a0b15f9669d18cf125c0783f85f98f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:40 +0000
Subject: [PATCH 04/19] fix: jump and superoperator index of a binary system's
 interaction when the second free system has no decay

---
 CPPQEDcore/composites/BinarySystem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CPPQEDcore/composites/BinarySystem.cc b/CPPQEDcore/composites/BinarySystem.cc
index f4a2143..743037b 100644
--- a/CPPQEDcore/composites/BinarySystem.cc
+++ b/CPPQEDcore/composites/BinarySystem.cc
@@ -226,8 +226,8 @@ void binary::Liouvillean::actWithJ_v(double t, StateVectorLow& psi, size_t i) co
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     for(auto& psiS : fullRange<V1>(psi)) li1->actWithJ(t,psiS,i);
     return;
   }
@@ -260,8 +260,8 @@ void binary::Liouvillean::actWithSuperoperator_v(double t, const DensityOperator
     return;
   }
 
-  i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  i-=n; n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     boost::range::for_each(fullRange<V1>(rho),fullRange<V1>(drhodt),lambda(li1));
     return;
   }
-- 
2.43.0


From 5f11e67e39b34c5c3300136f89dab19d649adba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:10 +0000
Subject: [PATCH 05/19] fix: highest frequency of a composite takes its
 interactions into account

---
 CPPQEDcore/composites/Composite.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/composites/Composite.tcc b/CPPQEDcore/composites/Composite.tcc
index 1c2c1e9..3993ada 100644
--- a/CPPQEDcore/composites/Composite.tcc
+++ b/CPPQEDcore/composites/Composite.tcc
@@ -117,13 +117,15 @@ std::ostream& composite::Base<VA>::streamParameters_v(std::ostream& os) const
 template<typename VA>
 double composite::Base<VA>::highestFrequency_v() const
 {
-  return boost::max_element(
+  const double highestOfFrees=boost::max_element(
     frees_,
     [](const SubSystemFree& ssf1, const SubSystemFree& ssf2) {
       return ssf1.get()->highestFrequency() < ssf2.get()->highestFrequency();
     })->get()->highestFrequency();
   
-  // NEEDS_WORK add the interactions here
+  return boost::fusion::fold(acts_,highestOfFrees,[](double h, const auto& act) -> double {
+    return std::max(h,act.get()->highestFrequency());
+  });
 }
 
 
-- 
2.43.0


From 76ecf559693cf59ed46e79c0c978be1d51d162a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:55 +0000
Subject: [PATCH 06/19] fix: pump strength among the frequencies of the pumped
 lossy qbit with phase noise in the unitary interaction picture

---
 CPPQEDelements/frees/Qbit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Qbit.cc b/CPPQEDelements/frees/Qbit.cc
index 1d8fd74..ba027c1 100644
--- a/CPPQEDelements/frees/Qbit.cc
+++ b/CPPQEDelements/frees/Qbit.cc
@@ -195,7 +195,7 @@ PumpedLossyQbitWithPhaseNoise::PumpedLossyQbitWithPhaseNoise(const qbit::ParsPum
 PumpedLossyQbitWithPhaseNoiseUIP::PumpedLossyQbitWithPhaseNoiseUIP(const qbit::ParsPumpedLossyPhaseNoise& p)
   : qbit::Hamiltonian<true>(dcomp(p.gamma,0),dcomp(0,-p.delta),p.eta),
     qbit::LiouvilleanPhaseNoise(p.gamma,p.gamma_parallel),
-    QbitBase{RF{"gamma_parallel",p.gamma_parallel,1},TUPLE_gamma,TUPLE_delta(1)}
+    QbitBase({RF{"gamma_parallel",p.gamma_parallel,1},TUPLE_gamma,TUPLE_delta(1)},TUPLE_eta)
 {
   getParsStream()<<"PumpedLossyWithPhaseNoise, Unitary interaction picture.\n";
 }
-- 
2.43.0


From 0508214af26fb73d6d122bc59f2b221cc7933476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:59 +0000
Subject: [PATCH 07/19] fix: the superoperator of ElementLiouvilleanDiffusive
 uses the diffusion coefficient of each level

---
 CPPQEDcore/structure/ElementLiouvillean.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index f09e3e9..0ecbde2 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -368,10 +368,12 @@ protected:
     if (lindbladNo<base_nAvr_) Base::actWithSuperoperator_v(t,rho,drhodt,lindbladNo);
     else if(lindbladNo==base_nAvr_) { // with this single case we cover the action of all the diffusive Lindblads
       for (int m=0; m<dim_; ++m) {
-        drhodt(m,m)+=2*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,m);
+        drhodt(m,m)+=2*diffusionCoeffs_[0]*rho(m,m);
         for (int n=m+1; n<dim_; ++n) {
-          drhodt(m,n)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,n);
-          drhodt(n,m)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(n,m);
+          // a coherence is dephased by the phase flips of both of the levels involved
+          const double coeff=2*diffusionCoeffs_[0]-4*(diffusionCoeffs_[m]+diffusionCoeffs_[n]);
+          drhodt(m,n)+=coeff*rho(m,n);
+          drhodt(n,m)+=coeff*rho(n,m);
         }
       }
     }
-- 
2.43.0


From 7033f8428e0a70d560387c0829e59d557bd33774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:46 +0000
Subject: [PATCH 08/19] fix: PumpedLossyModeAlternative at finite temperature
 takes the thermal decay into its Hamiltonian

---
 CPPQEDelements/frees/Mode.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index 981933d..f12df9a 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -203,7 +203,7 @@ PumpedLossyModeSch<TEMPERATURE,AveragingType>::PumpedLossyModeSch(const mode::Pa
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 PumpedLossyModeAlternative<TEMPERATURE,AveragingType>::PumpedLossyModeAlternative(const mode::ParsPumpedLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE,true>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(0,dcomp(p.kappa,-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(0,dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappadelta(1),TUPLE_eta}),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 7ef1904f20acd697f01c723c8a84ac9a5b280247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:53 +0000
Subject: [PATCH 09/19] fix: the trace of a state vector regarded as density
 operator is the square of its norm

---
 CPPQEDcore/quantumdata/StateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/StateVector.h b/CPPQEDcore/quantumdata/StateVector.h
index f637880..c253de0 100644
--- a/CPPQEDcore/quantumdata/StateVector.h
+++ b/CPPQEDcore/quantumdata/StateVector.h
@@ -191,7 +191,7 @@ public:
 private:
   const dcomp index(const Idx& i, const Idx& j) const override {return getArray()(i)*conj(getArray()(j));} ///< This function implements the LazyDensityOperator interface in a dyadic-product way.
   
-  double trace_v() const override {return norm();} ///< A straightforward implementation of a LazyDensityOperator virtual
+  double trace_v() const override {double res=norm(); return res*res;} ///< The trace of \f$\ket\Psi\bra\Psi\f$ is the square of the norm
   
 };
 
-- 
2.43.0


From b9f376e6031f9d570c6d0d0dee1793e100dba500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 10/19] fix: a time-dependent element with several decay
 channels derives from the time-dependent channel classes

---
 CPPQEDcore/structure/ElementLiouvillean.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index 0ecbde2..921cb30 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -106,7 +106,7 @@ struct ElementLiouvilleanException : std::runtime_error {using std::runtime_erro
  */
 template<int RANK, int NLINDBLADS, bool IS_TIME_DEPENDENT=false>
 class ElementLiouvillean : public ElementLiouvilleanAveragedCommon<LiouvilleanTimeDependenceDispatched<RANK,IS_TIME_DEPENDENT> >,
-                           public lindblad::_<RANK,NLINDBLADS-1,false,NLINDBLADS>
+                           public lindblad::_<RANK,NLINDBLADS-1,IS_TIME_DEPENDENT,NLINDBLADS>
 {
 private:
   typedef ElementLiouvilleanAveragedCommon<LiouvilleanTimeDependenceDispatched<RANK,IS_TIME_DEPENDENT> > Base;
-- 
2.43.0


From bb3c30d239b1657cbb85443b976b17d453123682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 11/19] fix: FreeExact starts from the propagator of the time
 it assumes, not from an uninitialised one

---
 CPPQEDcore/structure/FreeExact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/FreeExact.h b/CPPQEDcore/structure/FreeExact.h
index b6dc2bb..ff2949a 100644
--- a/CPPQEDcore/structure/FreeExact.h
+++ b/CPPQEDcore/structure/FreeExact.h
@@ -23,7 +23,7 @@ public:
   typedef typename ExactTimeDependenceDispatched<1,IS_TWO_TIME>::Time Time;
 
 protected:
-  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {}
+  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {diagonal_=1.;}
   
   Diagonal& getDiagonal() const {return diagonal_;}
 
-- 
2.43.0


From 28c209c1feb2151749306831cc86753ed413a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 12/19] fix: the Kerr term enters the mode's interaction
 picture once, in the propagator and the frequencies alike

---
 CPPQEDelements/frees/Mode.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index 1438922..6e049a4 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -41,7 +41,8 @@ Exact::Exact(dcomp zI, double omegaKerr, size_t dim)
 
 void Exact::updateU(Time t) const
 {
-  getDiagonal()=exp(-zI_*(double(t)*blitz::tensor::i));
+  using blitz::tensor::i;
+  getDiagonal()=exp(-zI_*(double(t)*i)-dcomp(0,omegaKerr_)*(double(t)*(i-1.)*i));
 }
 
 
@@ -58,7 +59,7 @@ const Tridiagonal::Diagonal mainDiagonal(dcomp z, double omegaKerr, size_t dim)
   using blitz::tensor::i;
   Tridiagonal::Diagonal res1(dim), res2(dim);
   res1=i; res1*=z;
-  KERRDIAGONAL(res2,omegaKerr)
+  KERRDIAGONAL(res2,-omegaKerr)
   return Tridiagonal::Diagonal(res1+res2);
 }
 
@@ -76,8 +77,8 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 // Here we use runtime dispatching because runtime dispatching will anyway happen at the latest in some maker function.
 {
   bool isPumped=isNonZero(eta);
-  if (isNonZero(z)) {
-    Tridiagonal res(mainDiagonal(-z,omegaKerr,dim));
+  if (isNonZero(z) || omegaKerr) {
+    Tridiagonal res(mainDiagonal(-z,-omegaKerr,dim));
     if (isPumped) return res+pumping(eta,dim);
     else return res;
   }
@@ -94,7 +95,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 
 template<> template<>
 Hamiltonian<true >::Hamiltonian(dcomp zSch, dcomp zI, dcomp eta, double omegaKerr, double omegaKerrAlter, size_t dim)
-  : Base(furnishWithFreqs(hOverI(zSch,eta,omegaKerr,dim),mainDiagonal(zI,omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
+  : Base(furnishWithFreqs(hOverI(zSch,eta,0.,dim),mainDiagonal(zI,omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
 {
   FILLKERR
 }
-- 
2.43.0


From 81f35abfc081c08e59b0eaaa1a836f7694d0fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:48 +0000
Subject: [PATCH 13/19] fix: densityOperatorize works for systems of several
 subsystems, too

---
 CPPQEDcore/quantumdata/DensityOperator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 1368404..52aec1f 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -239,7 +239,7 @@ template<int RANK>
 DensityOperator<RANK>
 densityOperatorize(const LazyDensityOperator<RANK>& matrix)
 {
-  DensityOperator<RANK> res(matrix.getDimension());
+  DensityOperator<RANK> res(matrix.getDimensions());
   
   typedef cppqedutils::MultiIndexIterator<RANK> Iterator;
   const Iterator etalon(matrix.getDimensions()-1,cppqedutils::mii::begin);
-- 
2.43.0


From 9492cbee61d68ec0bb81916ccf9e2f923f136293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:35 +0000
Subject: [PATCH 14/19] fix: trace of a density operator that refers to a
 slice: the storage is not contiguous

---
 CPPQEDcore/quantumdata/DensityOperator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 52aec1f..4b812b4 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -161,9 +161,10 @@ public:
   //@{
   double norm() const ///< returns the trace norm
   {
-    using blitz::tensor::i;
-    const linalg::CMatrix m(matrixView());
-    return real(sum(m(i,i)));
+    const cppqedutils::MultiIndexIterator<RANK> etalon(lbound(),ubound(),cppqedutils::mii::begin);
+    double res=0.;
+    for (auto i(etalon); i!=etalon.getEnd(); ++i) res+=real(indexWithTiny(*i,*i)); // not through matrixView, as the storage of a slice is not contiguous in general
+    return res;
   }
 
   double renorm() ///< ” and also renormalises
-- 
2.43.0


From f84b4b4f68cf95b74469bbcbae402d36eccbdbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:35 +0000
Subject: [PATCH 15/19] fix: unary plus and minus of state vectors and density
 operators did not compile

---
 CPPQEDcore/quantumdata/ArrayBase.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumdata/ArrayBase.h b/CPPQEDcore/quantumdata/ArrayBase.h
index e608d79..2388005 100644
--- a/CPPQEDcore/quantumdata/ArrayBase.h
+++ b/CPPQEDcore/quantumdata/ArrayBase.h
@@ -57,8 +57,8 @@ public:
   Derived& operator+=(const ArrayBase& arrayBase) {arrayLow_+=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
   Derived& operator-=(const ArrayBase& arrayBase) {arrayLow_-=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
 
-  Derived operator-() const {Derived res(this->getDimensions(),false); res.getArray()=-this->getArray(); return res;} ///< involves a deep-copy
-  Derived operator+() const {return *this;} ///< simply deep copy
+  Derived operator-() const {Derived res(static_cast<const Derived&>(*this)); res.getArray()*=-1.; return res;} ///< involves a deep-copy
+  Derived operator+() const {return static_cast<const Derived&>(*this);} ///< simply deep copy
   //@}
 
   /// \name Naive vector-space operations allowing also for mixed-mode arithmetics
-- 
2.43.0


From 768c1fe36643a0f5aa244c49dfeb0ea0a144db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:35 +0000
Subject: [PATCH 16/19] fix: ranges of retained axes that include the last axis
 were refused by SliceIterator

---
 CPPQEDutils/SliceIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDutils/SliceIterator.h b/CPPQEDutils/SliceIterator.h
index 366766b..7830fab 100644
--- a/CPPQEDutils/SliceIterator.h
+++ b/CPPQEDutils/SliceIterator.h
@@ -67,7 +67,7 @@ template<int RANK, typename V> struct ConsistencyChecker
 /// Specialization necessary since boost::mpl::range_c cannot be sorted
 template<int RANK, int I1, int I2>  struct ConsistencyChecker<RANK,boost::mpl::range_c<int,I1,I2> >
 {
-  static_assert( I1>=0 && I2<RANK , 
+  static_assert( I1>=0 && I2<=RANK , 
                  "cppqedutils::SliceIterator vector out of range" );
 };
 
-- 
2.43.0


From 5bf1598f7e3e97159e65f43f35f9dc1628599bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:30 +0000
Subject: [PATCH 17/19] fix: the product of two Sigmas kept the wrong index of
 the first one

---
 CPPQEDcore/quantumoperator/Sigma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Sigma.h b/CPPQEDcore/quantumoperator/Sigma.h
index 02ba774..36825c8 100644
--- a/CPPQEDcore/quantumoperator/Sigma.h
+++ b/CPPQEDcore/quantumoperator/Sigma.h
@@ -131,7 +131,7 @@ template<int L1, int R1, int L2, int R2>
 const DirectProduct<L1,R1,Sigma<L2,R2>,true>
 operator*(const Sigma<L1,R1>&, const Sigma<L2,R2>& sigma)
 {
-  return DirectProduct<L1,R2,Sigma<L2,R2>,true>(sigma);
+  return DirectProduct<L1,R1,Sigma<L2,R2>,true>(sigma);
 }
 
 
-- 
2.43.0


From c6473733a5650021e2e95bcc73783e8fcdf97dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:04 +0000
Subject: [PATCH 18/19] fix: direct product of Tridiagonals lost the
 frequencies when one factor has none on a diagonal

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 26 +++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index bf70e3f..187a57b 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -55,6 +55,30 @@ directDiagonals(const typename Tridiagonal<RANK1>::Diagonals& ds1,
 } // NEEDS_WORK this is now runtime, but (a smaller) part of it could be done compile-time. Ugh. Ouch.
 
 
+// The frequencies of an operand might be missing on some of its diagonals (they always are on the main one), in which case they have to be considered zero there
+template<int RANK1, int RANK2>
+const typename Tridiagonal<RANK1+RANK2>::Diagonals
+directFreqs(const Tridiagonal<RANK1>& t1, const Tridiagonal<RANK2>& t2)
+{
+  auto freqsOrZero=[](const auto& t, size_t i) {
+    typename std::decay_t<decltype(t)>::Diagonal res(t.getFreqs()(i));
+    if (!res.size()) {res.resize(t.get()(i).shape()); res=0.;}
+    return res;
+  };
+
+  typename Tridiagonal<RANK1+RANK2>::Diagonals res;
+
+  size_t length=t2.get().numElements();
+
+  for (size_t i=0; i<t1.get().numElements(); ++i) for (size_t j=0; j<length; ++j)
+    if (t1.getFreqs()(i).size() || t2.getFreqs()(j).size())
+      res(i*length+j).reference(blitzplusplus::doDirect<blitzplusplus::dodirect::addition,RANK1,RANK2>(freqsOrZero(t1,i),freqsOrZero(t2,j)));
+
+  return res;
+
+}
+
+
 } // details
 
 
@@ -64,7 +88,7 @@ Tridiagonal<RANK>::Tridiagonal(const Tridiagonal<RANK2>& t1, const Tridiagonal<R
     diagonals_(blitzplusplus::ShallowCopy(),details::directDiagonals<true,RANK2,RANK-RANK2>(t1.get(),t2.get())),
     differences_(blitzplusplus::concatenateTinies(t1.getDifferences(),t2.getDifferences())),
     tCurrent_(t1.getTime()),
-    freqs_(blitzplusplus::ShallowCopy(),details::directDiagonals<false,RANK2,RANK-RANK2>(t1.getFreqs(),t2.getFreqs()))
+    freqs_(blitzplusplus::ShallowCopy(),details::directFreqs<RANK2,RANK-RANK2>(t1,t2))
 {
   if (t1.getTime()!=t2.getTime()) throw std::runtime_error("Tridiagonal time mismatch");
 }
-- 
2.43.0


From 976efcffef19b71be8fb284aa68b2cc2717b30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:29 +0000
Subject: [PATCH 19/19] fix: sum of Tridiagonals accepted frequencies differing
 only on some of the elements

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index 187a57b..e3d8b91 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -160,7 +160,7 @@ Tridiagonal<RANK>::operator+=(const Tridiagonal& tridiag)
   
   boost::for_each(tridiag.freqs_,freqs_,[](const typename Tridiagonal<RANK>::Diagonal& from, typename Tridiagonal<RANK>::Diagonal& to) {
     if (from.size()) {
-      if (to.size() && all(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
+      if (to.size() && any(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
       else {
         to.resize(from.shape());
         to=from;
-- 
2.43.0

