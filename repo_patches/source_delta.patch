From b80660865460b6d8668a703fb8173e581aa3406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:23 +0000
Subject: [PATCH 01/39] fix: fold points far outside the box back without
 integer overflow

---
 src/pwq_bound_strategy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 5fb94c7..d346ab7 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -27,6 +27,7 @@
 
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/llogging.h>
+#include <cmath>
 #include <limits>
 #include <iostream>
 
@@ -97,9 +98,9 @@ namespace libcmaes
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
 	if (x_s[i] < _xlow[i])
-	  x_s[i] += _r[i] * (1.0 + static_cast<int>((_xlow[i]-x_s[i])/_r[i])); // shift up.
+	  x_s[i] = _xlow[i] + _r[i] - std::fmod(_xlow[i]-x_s[i],_r[i]); // shift up.
 	if (x_s[i] > _xup[i])
-	  x_s[i] -= _r[i] * (1.0 + static_cast<int>((x_s[i]-_xup[i])/_r[i])); // shift down;
+	  x_s[i] = _xup[i] - _r[i] + std::fmod(x_s[i]-_xup[i],_r[i]); // shift down;
 	if (x_s[i] < _lbounds[i] - _al[i])
 	  x_s[i] += 2.0 * (_lbounds[i] - _al[i] - x_s[i]);
 	if (x_s[i] > _ubounds[i] + _au[i])
-- 
2.43.0


From 553d2eebd1ea665a938610878491c87abd70099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:35 +0000
Subject: [PATCH 02/39] fix: inverse of a custom transform combined with linear
 scaling returned an uninitialised vector

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 7c1b4ef..3f8c9b6 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -311,7 +311,7 @@ namespace libcmaes
       else
 	{
 	  dVec ncandidate(candidate.rows());
-	  _genof(scand.data(),scand.data(),candidate.rows());
+	  _genof(scand.data(),ncandidate.data(),candidate.rows());
 	  return ncandidate;
 	}
     }
-- 
2.43.0


From 7b25164d931c2949ae390f2370c113603718a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:35 +0000
Subject: [PATCH 03/39] fix: report the user's own bounds when bounds are
 combined with an explicit scaling

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 3f8c9b6..ca99c2d 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -358,7 +358,7 @@ namespace libcmaes
       dVec nlbounds, nubounds;
       _scalingstrategy.scale_to_internal(nlbounds,vlbounds);
       _scalingstrategy.scale_to_internal(nubounds,vubounds);
-      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),scaling.size());
+      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),lbounds,ubounds,scaling.size());
     }
 }
 
-- 
2.43.0


From 476d4304d9a4e91a52220515331397e176b1afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:35 +0000
Subject: [PATCH 04/39] fix: removing several coordinates from a transform
 removed the wrong ones

---
 include/libcmaes/scaling.h | 7 ++++++-
 src/pwq_bound_strategy.cc  | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 86aedb1..c0f3c5a 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -28,7 +28,10 @@
 #define LSCALING_H
 
 #include <libcmaes/eo_matrix.h>
+#include <algorithm>
+#include <functional>
 #include <limits>
+#include <vector>
 #include <iostream>
 
 namespace libcmaes
@@ -136,7 +139,9 @@ namespace libcmaes
 
     void remove_dimensions(const std::vector<int> &k)
     {
-      for (const int i: k)
+      std::vector<int> ks(k); // highest index first, so that the others keep their position.
+      std::sort(ks.begin(),ks.end(),std::greater<int>());
+      for (const int i: ks)
 	{
 	  removeElement(_scaling,i);
 	  removeElement(_shift,i);
diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index d346ab7..3ad3030 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -27,7 +27,9 @@
 
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/llogging.h>
+#include <algorithm>
 #include <cmath>
+#include <functional>
 #include <limits>
 #include <iostream>
 
@@ -127,7 +129,9 @@ namespace libcmaes
 
   void pwqBoundStrategy::remove_dimensions(const std::vector<int> &k)
   {
-    for (const int i: k)
+    std::vector<int> ks(k); // highest index first, so that the others keep their position.
+    std::sort(ks.begin(),ks.end(),std::greater<int>());
+    for (const int i: ks)
       {
 	removeElement(_lbounds,i);
 	removeElement(_ubounds,i);
-- 
2.43.0


From 6a9b262a707ef9f3ec3e4b9edc8f6c1ffa87faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 05/39] fix: elitist re-injection could overwrite a newly found
 best point

---
 src/esostrategy.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0c570c1..482a7f9 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -136,7 +136,14 @@ namespace libcmaes
 #ifdef HAVE_DEBUG
 	    std::cout << "reinjecting solution=" << ref_fvalue << std::endl;
 #endif
-	    _solutions._candidates.at(1) = ref_candidate;
+	    // take the place of the worst point, so that no better one gets lost.
+	    int worst = 0;
+	    for (int r=1;r<candidates.cols();r++)
+	      {
+		if (_solutions._candidates.at(r).get_fvalue() > _solutions._candidates.at(worst).get_fvalue())
+		  worst = r;
+	      }
+	    _solutions._candidates.at(worst) = ref_candidate;
 	  }
       }
     
-- 
2.43.0


From e3099db6dabfe6c5306dcd8dcc6483a88dea02a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:20 +0000
Subject: [PATCH 06/39] fix: keep the finite-difference gradient inside the
 user's bounds under linear scaling

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 482a7f9..5d7b818 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -182,7 +182,7 @@ namespace libcmaes
       {
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
-	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getUBound(i));
+	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getPhenoUBound(i));
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
 	vgradf(i,0) = gradi;
       }
-- 
2.43.0


From 5fa42c3b43a223fd6c9bda44d6f80f2d1c19b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:17 +0000
Subject: [PATCH 07/39] fix: re-evaluations of uncertainty handling could leave
 the user's bounds

---
 src/esostrategy.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 5d7b818..c7f6e86 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -355,13 +355,13 @@ namespace libcmaes
 	  _solutions._lambda_reev = 1;
 	
 	// mutate candidates.
-	if (phenocandidates.size())
-	  candidates_uh = phenocandidates.block(0,0,phenocandidates.rows(),_solutions._lambda_reev);
-	else candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
+	candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
 	if (_solutions._sepcov.size())
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	if (phenocandidates.size())
+	  candidates_uh = _parameters._gp.pheno(candidates_uh);
 	}
 
   template<class TParameters,class TSolutions,class TStopCriteria>
-- 
2.43.0


From 876b10db6d23699fa0f6b5aa6c101c6722542aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:12 +0000
Subject: [PATCH 08/39] fix: set_elitism(0) did not switch off elitism on
 restart

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index da9f038..9180b94 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -243,7 +243,7 @@ namespace libcmaes
       inline void set_elitism(const int &e)
       {
 	if (e == 0)
-	  _elitist = _initial_elitist = _initial_elitist_on_restart;
+	  _elitist = _initial_elitist = _initial_elitist_on_restart = false;
 	else if (e == 1)
 	  {
 	    _elitist = true;
-- 
2.43.0


From 5954e646002159e74f44b2c9fe49fd76e65e1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:12 +0000
Subject: [PATCH 09/39] fix: make the sepaipop and sepabipop algorithms
 selectable by name

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 9180b94..41cde8a 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -328,7 +328,7 @@ namespace libcmaes
     };
 
   template<class TGenoPheno>
-    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepipop",10},{"sepbipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
+    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepaipop",10},{"sepabipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
 }
 
 #endif
-- 
2.43.0


From d45bb6dcf8214970494842cf74b854b51bce6e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:12 +0000
Subject: [PATCH 10/39] fix: set_seed(0) must draw a seed from the clock, other
 values must be used as given

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index be42b04..a0ea93d 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -276,7 +276,7 @@ namespace libcmaes
        */
       void set_seed(const int &seed)
       {
-	if (_seed == 0)
+	if (seed == 0)
 	  _seed = static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
 	else _seed = seed;
       }
-- 
2.43.0


From 6a38fb56a050694662b6cec297830e39399a071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:12 +0000
Subject: [PATCH 11/39] fix: a later set_fixed_p or set_stopping_criteria call
 must override an earlier one

---
 include/libcmaes/cmaparameters.h | 2 +-
 include/libcmaes/parameters.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 41cde8a..17af439 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -270,7 +270,7 @@ namespace libcmaes
       inline void set_stopping_criteria(const int &criteria,
 					const bool &active)
       {
-	_stoppingcrit.insert(std::pair<int,bool>(criteria,active));
+	_stoppingcrit[criteria] = active;
       }
 
       /**
diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index a0ea93d..f8e7192 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -194,7 +194,7 @@ namespace libcmaes
        */
       void set_fixed_p(const int &index, const double &value)
       {
-	_fixed_p.insert(std::pair<int,double>(index,value));
+	_fixed_p[index] = value;
       }
       
       /**
-- 
2.43.0


From bf962ae57b3b137f98c91e33e50833c70805b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:44 +0000
Subject: [PATCH 12/39] fix: the parameter tolerance must bound the search
 distribution, scaled by sigma/sigma0

---
 src/cmastopcriteria.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 89310a9..0251536 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -166,16 +166,15 @@ namespace libcmaes
       {
 	double tolx = std::max(cmap._xtol,1e-12);
 	double factor = cmas._sigma / cmap._sigma_init;
-	double tfactor = tolx * factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (cmas._pc[i]>=tfactor)
+	  if (fabs(cmas._pc[i])*factor>=tolx)
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
 	for (int i=0;i<covrows;i++)
-	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))>=tfactor)
-	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))>=tfactor))
+	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))*factor>=tolx)
+	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))*factor>=tolx))
 	    return CONT;
 	LOG_IF(INFO,!cmap._quiet) << "stopping criteria tolX\n";
 	return TOLX;
-- 
2.43.0


From 3f4daf4cc29f430eb0e915bf3af3032daec72dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 13/39] fix: rank ties under uncertainty handling compared the
 wrong rank sums

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index c7f6e86..53a0d51 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -305,7 +305,7 @@ namespace libcmaes
 	      [lreev,meandelta](RankedCandidate const &c1, RankedCandidate const &c2)
 	      { 
 		int s1 = c1._r1 + c1._r2;
-		int s2 = c2._r2 + c2._r2;
+		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
 		    if (c1._delta == c2._delta)
-- 
2.43.0


From 89f4474d38d7872f4bcc50ca04747448e6c3b483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 14/39] fix: maximization was ignored when starting from an
 existing solution

---
 src/esostrategy.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 53a0d51..5d88990 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -64,6 +64,11 @@ namespace libcmaes
 								 const TSolutions &solutions)
     :_func(func),_nevals(0),_niter(0),_parameters(parameters)
   {
+    if (parameters._maximize)
+      {
+	_funcaux = _func;
+	_func = [&](const double *x, const int N) { return -1.0*_funcaux(x,N); };
+      }
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     start_from_solution(solutions);
     if (parameters._uh)
-- 
2.43.0


From cbde19440aa32aa3eb1361ab13afce8c01b6a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 15/39] fix: the choice of stopping criteria was ignored when
 starting from an existing solution

---
 src/cmastrategy.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index cc8814c..2eeefe7 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -134,6 +134,12 @@ namespace libcmaes
     LOG_IF(INFO,!eostrat<TGenoPheno>::_parameters._quiet) << "CMA-ES / dim=" << eostrat<TGenoPheno>::_parameters._dim << " / lambda=" << eostrat<TGenoPheno>::_parameters._lambda << " / sigma0=" << eostrat<TGenoPheno>::_solutions._sigma << " / mu=" << eostrat<TGenoPheno>::_parameters._mu << " / mueff=" << eostrat<TGenoPheno>::_parameters._muw << " / c1=" << eostrat<TGenoPheno>::_parameters._c1 << " / cmu=" << eostrat<TGenoPheno>::_parameters._cmu << " / lazy_update=" << eostrat<TGenoPheno>::_parameters._lazy_update << std::endl;
     if (!eostrat<TGenoPheno>::_parameters._fplot.empty())
       _fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+    auto mit=eostrat<TGenoPheno>::_parameters._stoppingcrit.begin();
+    while(mit!=eostrat<TGenoPheno>::_parameters._stoppingcrit.end())
+      {
+	_stopcriteria.set_criteria_active((*mit).first,(*mit).second);
+	++mit;
+      }
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
-- 
2.43.0


From f43bba6ee912a369c21e827612251d241e8bfc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 16/39] fix: lazy updates of the eigendecomposition must not
 keep sampling around an old mean

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 2eeefe7..58cfc3a 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -160,11 +160,11 @@ namespace libcmaes
     if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
       {
 	eostrat<TGenoPheno>::_solutions._updated_eigen = false;
+	_esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	if (eostrat<TGenoPheno>::_niter == 0 || !eostrat<TGenoPheno>::_parameters._lazy_update
 	    || eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._eigeniter > eostrat<TGenoPheno>::_parameters._lazy_value)
 	  {
 	    eostrat<TGenoPheno>::_solutions._eigeniter = eostrat<TGenoPheno>::_niter;
-	    _esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	    _esolver.setCovar(eostrat<TGenoPheno>::_solutions._cov);
 	    eostrat<TGenoPheno>::_solutions._updated_eigen = true;
 	  }
-- 
2.43.0


From 84706059f8bc2397b71414cabede6278b963c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 17/39] fix: BIPOP started from an existing solution used an
 uninitialised step size and budget

---
 src/bipopcmastrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index a6ee42f..35d05d6 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -57,6 +57,8 @@ namespace libcmaes
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
     //CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = CMASolutions(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters);
+    _sigma_init = parameters._sigma_init;
+    _max_fevals = parameters._max_fevals;
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
-- 
2.43.0


From 92905a83fa378b0f370b86643d23709b11470f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 18/39] fix: values of fixed parameters must be scaled like the
 other parameters

---
 src/cmastrategy.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 58cfc3a..f0388d6 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -255,10 +255,16 @@ namespace libcmaes
     // if some parameters are fixed, reset them.
     if (!eostrat<TGenoPheno>::_parameters._fixed_p.empty())
       {
+	dVec fixed = dVec::Zero(eostrat<TGenoPheno>::_parameters._dim);
+	for (auto it=eostrat<TGenoPheno>::_parameters._fixed_p.begin();
+	     it!=eostrat<TGenoPheno>::_parameters._fixed_p.end();++it)
+	  fixed((*it).first) = (*it).second;
+	if (!eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().is_id())
+	  eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().scale_to_internal(fixed,fixed);
 	for (auto it=eostrat<TGenoPheno>::_parameters._fixed_p.begin();
 	     it!=eostrat<TGenoPheno>::_parameters._fixed_p.end();++it)
 	  {
-	    pop.block((*it).first,0,1,pop.cols()) = dVec::Constant(pop.cols(),(*it).second).transpose();
+	    pop.block((*it).first,0,1,pop.cols()) = dVec::Constant(pop.cols(),fixed((*it).first)).transpose();
 	  }
       }
     
-- 
2.43.0


From f98307fd72ce4e4cb5cde08e60acaf372bba0eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 19/39] fix: elitist restart under scaling must start at the
 best point seen

---
 src/cmastrategy.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index f0388d6..ed9d6c9 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -387,7 +387,10 @@ namespace libcmaes
 	    this->set_initial_elitist(true);
 
 	    // reinit solution and re-optimize.
-	    eostrat<TGenoPheno>::_parameters.set_x0(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec_ref());
+	    dVec nx0 = eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec();
+	    if (!eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().is_id()) // x0 is given unscaled.
+	      eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().scale_to_f(dVec(nx0),nx0);
+	    eostrat<TGenoPheno>::_parameters.set_x0(nx0);
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
 	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-- 
2.43.0


From 8905aff5d68dd2b5c4c85c66bcee2534c2c01ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:11 +0000
Subject: [PATCH 20/39] fix: iteration of the best-seen candidate was
 uninitialised when the initial point is best

---
 include/libcmaes/cmasolutions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index 23aca8a..c026655 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -526,7 +526,7 @@ namespace libcmaes
     double _edm = 0.0; /**< expected vertical distance to the minimum. */
 
     Candidate _best_seen_candidate; /**< best seen candidate along the run. */
-    int _best_seen_iter;
+    int _best_seen_iter = 0;
     Candidate _worst_seen_candidate;
     Candidate _initial_candidate;
     
-- 
2.43.0


From 1162ca0d30cd7fffa35e0e37842afc3859cae707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:12 +0000
Subject: [PATCH 21/39] fix: keep the flavour's learning rates when parameters
 are re-initialized on a restart

---
 src/cmaparameters.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 9565984..c70e612 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -115,6 +115,26 @@ namespace libcmaes
     // uncertainty handling.
     this->_rlambda = std::max(0.1,2.0/Parameters<TGenoPheno>::_lambda);
     this->_alphathuh = 1 + 2.0/(Parameters<TGenoPheno>::_dim+10.0);
+
+    // on re-initialization (e.g. a restart), keep what the user has set.
+    if (_sep)
+      {
+	_sep = false;
+	set_sep();
+      }
+    if (_vd)
+      {
+	_vd = false;
+	set_vd();
+      }
+    if (this->_tpa == 2)
+      set_tpa(this->_tpa);
+    if (!Parameters<TGenoPheno>::_fixed_p.empty())
+      {
+	double ndim = Parameters<TGenoPheno>::_dim-Parameters<TGenoPheno>::_fixed_p.size();
+	_chi = sqrt(ndim)*(1.0-1.0/(4.0*ndim) + 1.0/(21.0*ndim*ndim));
+	_lazy_value = 1.0/(_c1+_cmu)/ndim/10.0;
+      }
   }
   
   template <class TGenoPheno>
@@ -151,6 +171,8 @@ namespace libcmaes
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::set_sep()
   {
+    if (_sep) // already applied to the current parameters.
+      return;
     _sep = true;
     _c1 *= (Parameters<TGenoPheno>::_dim+2.0)/3.0;
     _cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
@@ -166,6 +188,8 @@ namespace libcmaes
 	std::cerr << "[Warning]: set_vd on non VD algorithm " << this->_algo << ". Not activating VD update\n";
 	return;
       }
+    if (_vd) // already applied to the current parameters.
+      return;
     _vd = true;
     _csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
     _c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
-- 
2.43.0


From 7de3df07b23b3cbbc181dca5282bda27cc69b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:37 +0000
Subject: [PATCH 22/39] fix: separable updates scale the evolution path with
 the learning rate they use

---
 src/cmaparameters.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index c70e612..66f0d6b 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -178,6 +178,7 @@ namespace libcmaes
     _cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
     _lazy_value = 1.0/(_c1+_cmu)/Parameters<TGenoPheno>::_dim/10.0;
     _cc = (1.0+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim) + _muw/static_cast<double>(Parameters<TGenoPheno>::_dim))/(std::sqrt(Parameters<TGenoPheno>::_dim)+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim)+2.0*_muw/static_cast<double>(Parameters<TGenoPheno>::_dim));
+    _fact_pc = sqrt(_cc * (2.0 - _cc) * _muw);
   }
   
   template <class TGenoPheno>
-- 
2.43.0


From 4a4bce2b965c690ce62f0857aad72d736539b07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:10 +0000
Subject: [PATCH 23/39] fix: an elitist restart must keep the custom eval, ask
 and tell functions

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index ed9d6c9..46d57a2 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -394,7 +394,7 @@ namespace libcmaes
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
 	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-	    optimize();
+	    optimize(evalf,askf,tellf);
 	  }
       }
     
-- 
2.43.0


From ee43b6c9cd0c6b86037f9f98067e4b42f005eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:33 +0000
Subject: [PATCH 24/39] fix: finite differences and re-evaluations must not
 move fixed parameters

---
 src/esostrategy.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 5d88990..aa2b462 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -185,13 +185,18 @@ namespace libcmaes
 #pragma omp parallel for if (_parameters._mt_feval)
     for (int i=0;i<_parameters._dim;i++)
       {
+	if (_parameters._fixed_p.find(i) != _parameters._fixed_p.end()) // fixed parameters do not move.
+	  {
+	    vgradf(i,0) = 0.0;
+	    continue;
+	  }
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
 	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getPhenoUBound(i));
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
 	vgradf(i,0) = gradi;
       }
-    update_fevals(_parameters._dim+1); // numerical gradient increases the budget.
+    update_fevals(_parameters._dim-static_cast<int>(_parameters._fixed_p.size())+1); // numerical gradient increases the budget.
     return vgradf;
   }
 
@@ -365,6 +370,8 @@ namespace libcmaes
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	for (auto it=_parameters._fixed_p.begin();it!=_parameters._fixed_p.end();++it)
+	  candidates_uh.row((*it).first) = candidates.block((*it).first,0,1,_solutions._lambda_reev); // fixed parameters do not move.
 	if (phenocandidates.size())
 	  candidates_uh = _parameters._gp.pheno(candidates_uh);
 	}
-- 
2.43.0


From 9a85a27e03d4317629fb3debc420dd2d447eb84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:57 +0000
Subject: [PATCH 25/39] fix: starting from an existing solution works with the
 separable flavours and under scaling

---
 include/libcmaes/cmaes.h       | 12 ++++++------
 include/libcmaes/esostrategy.h |  5 ++++-
 src/cmasolutions.cc            |  8 +++++---
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index f7e49e1..08b8df6 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -184,7 +184,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -209,7 +209,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -234,7 +234,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -258,7 +258,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -282,7 +282,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -306,7 +306,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 5bd1aa4..abd1a15 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -153,7 +153,10 @@ namespace libcmaes
      */
     void start_from_solution(const TSolutions &sol)
     {
-      _parameters.set_x0(sol.best_candidate().get_x_dvec());
+      dVec nx0 = sol.best_candidate().get_x_dvec();
+      if (!_parameters.get_gp().get_scalingstrategy().is_id()) // x0 is given unscaled.
+	_parameters.get_gp().get_scalingstrategy().scale_to_f(dVec(nx0),nx0);
+      _parameters.set_x0(nx0);
       _solutions = sol;
       _solutions.reset();
     }
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a46e414..b28ce91 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -209,13 +209,15 @@ namespace libcmaes
     //_leigenvalues.setZero(); // beware.
     //_leigenvectors.setZero();
     //_cov /= 1e-3;//_sigma;
-    _cov = dMat::Identity(_csqinv.rows(),_csqinv.cols());
+    if (_sepcov.size()) // linear-sized flavors.
+      _sepcov = dMat::Constant(_xmean.size(),1,1.0);
+    else _cov = dMat::Identity(_xmean.size(),_xmean.size());
     //std::cout << "cov: " << _cov << std::endl;
     _niter = 0;
     _nevals = 0;
     //_sigma = 1.0/static_cast<double>(_csqinv.rows());
-    _psigma = dVec::Zero(_cov.rows());
-    _pc = dVec::Zero(_cov.rows());
+    _psigma = dVec::Zero(_xmean.size());
+    _pc = dVec::Zero(_xmean.size());
     _k_best_candidates_hist.clear();
     _bfvalues.clear();
     _median_fvalues.clear();
-- 
2.43.0


From bf749c4587797ef621aec48273bbf2b3890784b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 26/39] fix: a run started from a solution is sized by its own
 parameters and keeps nothing of the earlier run

---
 include/libcmaes/cmaes.h       | 81 +++++++++++++++++++++++++---------
 include/libcmaes/esostrategy.h |  5 +++
 src/cmasolutions.cc            |  1 +
 3 files changed, 66 insertions(+), 21 deletions(-)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index 08b8df6..760bcaf 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -330,37 +330,76 @@ namespace libcmaes
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters);
-	  if (gfunc != nullptr)
-	    vdcma.set_gradient_func(gfunc);
-	  vdcma.set_progress_func(pfunc);
-	  vdcma.set_plot_func(pffunc);
-	  vdcma.optimize();
-	  return vdcma.get_solutions();
+	  if (solutions.sepcov().size()==0)
+	    {
+	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> vdcma(func,parameters);
+	      if (gfunc != nullptr)
+		vdcma.set_gradient_func(gfunc);
+	      vdcma.set_progress_func(pfunc);
+	      vdcma.set_plot_func(pffunc);
+	      vdcma.optimize();
+	      return vdcma.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> vdcma(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		vdcma.set_gradient_func(gfunc);
+	      vdcma.set_progress_func(pfunc);
+	      vdcma.set_plot_func(pffunc);
+	      vdcma.optimize();
+	      return vdcma.get_solutions();
+	    }
 	}
 	case VD_IPOP_CMAES:
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters);
-	  if (gfunc != nullptr)
-	    ipop.set_gradient_func(gfunc);
-	  ipop.set_progress_func(pfunc);
-	  ipop.set_plot_func(pffunc);
-	  ipop.optimize();
-	  return ipop.get_solutions();
+	  if (solutions.sepcov().size()==0)
+	    {
+	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
+	      if (gfunc != nullptr)
+		ipop.set_gradient_func(gfunc);
+	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
+	      ipop.optimize();
+	      return ipop.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		ipop.set_gradient_func(gfunc);
+	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
+	      ipop.optimize();
+	      return ipop.get_solutions();
+	    }
 	}
 	case VD_BIPOP_CMAES:
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters);
-	  if (gfunc != nullptr)
-	    bipop.set_gradient_func(gfunc);
-	  bipop.set_progress_func(pfunc);
-	  bipop.set_plot_func(pffunc);
-	  bipop.optimize();
-	  return bipop.get_solutions();
+	  if (solutions.sepcov().size()==0)
+	    {
+	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
+	      if (gfunc != nullptr)
+		bipop.set_gradient_func(gfunc);
+	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
+	      bipop.optimize();
+	      return bipop.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		bipop.set_gradient_func(gfunc);
+	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
+	      bipop.optimize();
+	      return bipop.get_solutions();
+	    }
 	}
 	default:
 	return CMASolutions();
diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index abd1a15..2268a2b 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -159,6 +159,11 @@ namespace libcmaes
       _parameters.set_x0(nx0);
       _solutions = sol;
       _solutions.reset();
+      TSolutions fresh(_parameters); // what depends on the new parameters is taken from there.
+      _solutions._candidates = fresh._candidates;
+      _solutions._kcand = fresh._kcand;
+      _solutions._max_hist = fresh._max_hist;
+      _solutions._v = fresh._v;
     }
 
     /**
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index b28ce91..242acbf 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -218,6 +218,7 @@ namespace libcmaes
     //_sigma = 1.0/static_cast<double>(_csqinv.rows());
     _psigma = dVec::Zero(_xmean.size());
     _pc = dVec::Zero(_xmean.size());
+    _tpa_s = 0.0;
     _k_best_candidates_hist.clear();
     _bfvalues.clear();
     _median_fvalues.clear();
-- 
2.43.0


From 4e74313d1a21ea223268ed2315e81398e41c15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 27/39] fix: per-coordinate initial step sizes are not
 multiplied by the smallest of them

---
 src/cmaparameters.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 66f0d6b..2f9aad2 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -61,7 +61,9 @@ namespace libcmaes
     dVec shift = dVec::Constant(x0.size(),0.0);
     TGenoPheno gp(scaling,shift,&lbounds.front(),&ubounds.front()); // XXX: is only effective when GenoPheno has linScalingStrategy
     this->set_gp(gp);
-    _sigma_init = *std::min_element(sigma.begin(),sigma.end());
+    if (!this->_gp.get_scalingstrategy().is_id())
+      _sigma_init = 1.0; // the step sizes are carried by the scaling.
+    else _sigma_init = *std::min_element(sigma.begin(),sigma.end());
     initialize_parameters();
   }
   
-- 
2.43.0


From 840da55680701c41fb38b3adf5d43679c057d0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 28/39] fix: VD-CMA uses its own damping with automatic
 two-point adaptation switched off

---
 src/cmaparameters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 2f9aad2..205b108 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -197,7 +197,7 @@ namespace libcmaes
     _csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
     _c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
     _cmu = std::min(1.0-_c1,(Parameters<TGenoPheno>::_dim-5)/6.0*(2.0*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw)));
-    if (this->_tpa == 0)
+    if (this->_tpa != 2)
       _dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1);
     _fact_ps = sqrt(_csigma*(2.0-_csigma)*_muw);
   }
-- 
2.43.0


From 972979c1ba5cb69008b3638990d94d548479e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 29/39] fix: selecting another algorithm drops the separable /
 VD flavour of the previous one

---
 include/libcmaes/cmaparameters.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 17af439..11c3f4b 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -119,7 +119,19 @@ namespace libcmaes
        */
       void set_algo(const int &algo)
       {
+	const int palgo = this->_algo;
 	this->_algo = algo;
+	// a previously selected flavor does not carry over.
+	const bool dropsep = _sep && palgo >= 6 && palgo <= 11 && (algo < 6 || algo > 11);
+	const bool dropvd = _vd && (algo < 12 || algo > 14);
+	if (dropsep || dropvd)
+	  {
+	    if (dropsep)
+	      _sep = false;
+	    if (dropvd)
+	      _vd = false;
+	    initialize_parameters();
+	  }
 	/*if (this->_tpa != 0
 	    && (this->_algo == 6 // sepCMAES
 		|| this->_algo == 7 //sepIPOP_CMAES
@@ -141,7 +153,7 @@ namespace libcmaes
       {
 	std::map<std::string,int>::const_iterator mit;
 	if ((mit = Parameters<TGenoPheno>::_algos.find(algo))!=Parameters<TGenoPheno>::_algos.end())
-	  Parameters<TGenoPheno>::_algo = (*mit).second;
+	  set_algo((*mit).second);
 	else LOG(ERROR) << "unknown algorithm " << algo << std::endl;
 	if (algo.find("sep")!=std::string::npos)
 	  set_sep();
-- 
2.43.0


From e8fa964a700090cd773dcff365dbc4647e004687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 30/39] fix: a new profile likelihood replaces the stored one

---
 src/errstats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 45e53d3..678cdd0 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -52,7 +52,7 @@ namespace libcmaes
     errstats<TGenoPheno>::profile_likelihood_search(func,parameters,le,cmasol,k,true,samplesize,fup,delta,maxiters,curve);  // negative direction
     
     le.setErrMinMax();
-    cmasol._pls.insert(std::pair<int,pli>(k,le));
+    cmasol._pls[k] = le;
     return le;
   }
 
-- 
2.43.0


From abd6ca87272464b8d2cfc4dba4be9a64f9815865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 31/39] fix: profile likelihood pads the rows it did not reach
 with its last point

---
 src/errstats.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 678cdd0..5e28513 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -151,7 +151,16 @@ namespace libcmaes
 	if (curve && i == samplesize)
 	  break;
 	if (i == maxiters)
-	  break;
+	  {
+	    // pad with the last point.
+	    for (int j=curve?i:0;j<samplesize;j++)
+	      {
+		le._fvaluem[samplesize+sign*(1+j)] = ncitsol.best_candidate().get_fvalue();
+		le._xm.row(samplesize+sign*(1+j)) = phenobx.transpose();
+		le._err[samplesize+sign*(1+j)] = ncitsol._run_status;
+	      }
+	    break;
+	  }
       }
   }
 
-- 
2.43.0


From dc4f0e07917a55bdbe60cb5a0082135df96c52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:27 +0000
Subject: [PATCH 32/39] fix: reduced problems accept held parameters in any
 order and report the point they evaluated

---
 src/errstats.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 5e28513..007d274 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -242,12 +242,23 @@ namespace libcmaes
   CMASolutions errstats<TGenoPheno>::optimize_vpk(FitFunc &func,
 						  const CMAParameters<TGenoPheno> &parameters,
 						  const CMASolutions &cmasol,
-						  const std::vector<int> &k,
-						  const std::vector<double> &vk,
+						  const std::vector<int> &uk,
+						  const std::vector<double> &uvk,
 						  const dVec &x0,
 						  const bool &pheno_x0,
 						  const bool &pheno_vk)
   {
+    // elements are removed and added back in increasing order.
+    std::map<int,double> skv;
+    for (size_t i=0;i<uk.size();i++)
+      skv[uk.at(i)] = uvk.at(i);
+    std::vector<int> k;
+    std::vector<double> vk;
+    for (auto it=skv.begin();it!=skv.end();++it)
+      {
+	k.push_back((*it).first);
+	vk.push_back((*it).second);
+      }
     dVec rx0;
     if (!pheno_x0)
       rx0 = parameters.get_gp().pheno(x0);
@@ -265,6 +276,7 @@ namespace libcmaes
     dVec pvk = dVec::Zero(x0.size());
     for (size_t i=0;i<vk.size();i++)
       pvk(k[i]) = vk.at(i);
+    dVec gvk = pvk;
     if (!pheno_vk)
       pvk = parameters.get_gp().pheno(pvk);
      
@@ -272,8 +284,8 @@ namespace libcmaes
       {
 	double fval = func(pvk.data(),pvk.size());
 	CMASolutions rcmasol;
-	rcmasol._candidates.emplace_back(fval,pvk);
-	rcmasol._best_candidates_hist.push_back(cmasol._candidates.at(0));
+	rcmasol._candidates.emplace_back(fval,pheno_vk ? parameters.get_gp().geno(pvk) : gvk); // in genotype
+	rcmasol._best_candidates_hist.push_back(rcmasol._candidates.at(0));
 	rcmasol._nevals++;
 	return rcmasol;
       }
-- 
2.43.0


From 5722c00a60dc5bbad8e3ff028536dbe1bf009ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:14 +0000
Subject: [PATCH 33/39] fix: step size of an empty CMASolutions was
 uninitialised

---
 include/libcmaes/cmasolutions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index c026655..08ab340 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -492,7 +492,7 @@ namespace libcmaes
     dVec _psigma; /**< cumulation for sigma. */
     dVec _pc; /**< cumulation for covariance. */
     short _hsig = 1; /**< 0 or 1. */
-    double _sigma; /**< step size. */
+    double _sigma = 0.0; /**< step size. */
     std::vector<Candidate> _candidates; /**< current set of candidate solutions. */
     std::vector<Candidate> _best_candidates_hist; /**< history of best candidate solutions. */
     int _max_hist = -1; /**< max size of the history, keeps memory requirements fixed. */
-- 
2.43.0


From 9c6d958dda4d87e23f819689eb0bbc378750a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:14 +0000
Subject: [PATCH 34/39] fix: edm() with VD-CMA read eigenvectors that do not
 exist

---
 src/esostrategy.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index aa2b462..0a983bb 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -216,7 +216,13 @@ namespace libcmaes
     dVec gradgpf = gradgp(_solutions._xmean);
     gradff = gradff.cwiseProduct(gradgpf);
     dMat gradmn;
-    if (!_parameters._sep)
+    if (_parameters._vd) // C = D(I+vv^T)D, there are no eigenvectors
+      {
+	dVec dgrad = _solutions._sepcov.cwiseProduct(gradff);
+	double vdgrad = _solutions._v.dot(dgrad);
+	gradmn = dMat::Constant(1,1,sqrt(dgrad.squaredNorm() + vdgrad*vdgrad));
+      }
+    else if (!_parameters._sep)
       gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
     else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
     double gradn = _solutions._sigma * gradmn.norm();
-- 
2.43.0


From b3218e146713f7d3c0eb5f9842b2a8996286701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:14 +0000
Subject: [PATCH 35/39] fix: ACM surrogate updated from an unsorted population
 in the generation that completes the training set

---
 src/surrogatestrategy.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index cfd677b..c3ddb23 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -268,15 +268,13 @@ namespace libcmaes
 	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
 	for (int i=0;i<eostrat<TGenoPheno>::_solutions.size();i++)
 	  this->add_to_training_set(eostrat<TGenoPheno>::_solutions.candidates().at(i)); // XXX: not very efficient update when test size already filled up.
+	eostrat<TGenoPheno>::_solutions.sort_candidates(); // pre-selected candidates are sorted by pre_selection_eval.
       }
   }
 
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::tell()
   {
-    if (!this->_exploit || (int)this->_tset.size() < this->_l)
-      eostrat<TGenoPheno>::_solutions.sort_candidates();
-    
     // update function value history, as needed.
     eostrat<TGenoPheno>::_solutions.update_best_candidates();
         
-- 
2.43.0


From 1214a5fbdfc9fa1f4537695cbf1bf603f70684be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:14 +0000
Subject: [PATCH 36/39] fix: simple surrogate trained with an empty covariance
 in separable and VD flavours

---
 src/surrogatestrategy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index c3ddb23..b93b44d 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -176,8 +176,9 @@ namespace libcmaes
     // train surrogate as required.
     if (do_train())
       {
-	this->train(this->_tset,
-		    eostrat<TGenoPheno>::_solutions._csqinv);
+	if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
+	  this->train(this->_tset,eostrat<TGenoPheno>::_solutions._csqinv);
+	else this->train(this->_tset,eostrat<TGenoPheno>::_solutions._sepcsqinv);
       }
   }
   
-- 
2.43.0


From f7e40ae2ebdcbb371e5fbbb2cb03d51f8ad5a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:14 +0000
Subject: [PATCH 37/39] fix: surrogate test error was NaN when a single
 candidate is evaluated

---
 src/surrogatestrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index b93b44d..ed7aa62 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -78,6 +78,8 @@ namespace libcmaes
   double SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::compute_error(const std::vector<Candidate> &test_set,
 									const dMat &cov)
   {
+    if (test_set.size() < 2)
+      return 0.0; // no pair to rank.
     double test_set_size = test_set.size();
     double factor = 2.0 / static_cast<double>((test_set_size*(test_set_size-1)));
     std::vector<Candidate> ctest_set = test_set;
-- 
2.43.0


From 85056eaa7785817aa1a5964000b4415f8bfdd924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:30 +0000
Subject: [PATCH 38/39] fix: simple surrogate could rank the population by a
 model never trained

---
 include/libcmaes/surrogatestrategy.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index c119adf..e6818be 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -73,7 +73,7 @@ namespace libcmaes
      * @return training status
      */
     int train(const std::vector<Candidate> &candidates,
-	      const dMat &cov) { return _train(candidates,cov); }
+	      const dMat &cov) { _trained = true; return _train(candidates,cov); }
 
     /**
      * \brief predict from a surrogate model
@@ -202,6 +202,7 @@ namespace libcmaes
     double _test_err = 0.0; /**< current surrogate model error estimate. */
     double _smooth_test_err = 0.5; /**< smoothed test error as (1-\beta_err)*_test_err + \beta_err * new_test_err */
     double _beta_err = 0.2; /**< smoothing constant. */
+    bool _trained = false; /**< whether the surrogate has been trained at least once. */
     int _nsteps = 1; /**< steps in between two training phases. */
     int _auto_nsteps = false; /**< whether to automatically set the surrogate lifelength. */
     };
@@ -267,7 +268,7 @@ namespace libcmaes
      */
     inline bool do_train() const
     {
-      if (!SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::_exploit && (int)this->_tset.size() >= this->_l)
+      if ((!SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::_exploit || !this->_trained) && (int)this->_tset.size() >= this->_l)
 	return true;
       return ((this->_niter == 0 || this->_niter % this->_nsteps == 0) && (int)this->_tset.size() >= this->_l);
     }
-- 
2.43.0


From 0ec4dfe844ef1ae3c8dec2004bb33d9f4e890f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:30 +0000
Subject: [PATCH 39/39] fix: ranking SVM drew from a shared generator inside a
 parallel loop

---
 include/libcmaes/surrogates/rankingsvm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogates/rankingsvm.hpp b/include/libcmaes/surrogates/rankingsvm.hpp
index 03e30fb..ab7522e 100644
--- a/include/libcmaes/surrogates/rankingsvm.hpp
+++ b/include/libcmaes/surrogates/rankingsvm.hpp
@@ -258,6 +258,8 @@ class RankingSVM
     // initialization of temporary variables
     dVec sum_alphas = dVec::Zero(_dKij.cols());
     dMat div_dKij = dMat::Zero(_dKij.rows(),_dKij.cols());
+    for (int i=0;i<_dKij.rows();i++) // the generator is shared, draw outside of the parallel region
+      _alpha(i) = _C(i) * (0.95 + 0.05*_udist(_rng));
 #pragma omp parallel
     {
 #pragma omp for
@@ -267,8 +269,6 @@ class RankingSVM
 	    {
 	      _dKij(i,j) = _K(i,j) - _K(i,j+1) - _K(i+1,j) + _K(i+1,j+1);
 	    }
-	  double fact = _udist(_rng);
-	  _alpha(i) = _C(i) * (0.95 + 0.05*fact);
 	}
 #pragma omp for
       for (int i=0;i<_dKij.rows();i++)
-- 
2.43.0

