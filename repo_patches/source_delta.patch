From 4b2563a71bc6650db5113a2468767b9c8757889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:05 +0000
Subject: [PATCH 01/35] fix: return the documented error sentinel from C and
 Fortran interface functions

Functions returning double have to report DERR and functions returning size_t
have to report npos, since those are the values callers compare against;
kin_newfromfile_ returned a positive value on failure.
---
 src/clib/ct.cpp        | 10 +++++-----
 src/clib/ctonedim.cpp  |  2 +-
 src/clib/ctreactor.cpp |  8 ++++----
 src/fortran/fct.cpp    |  8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/clib/ct.cpp b/src/clib/ct.cpp
index 206ad20..84f2493 100644
--- a/src/clib/ct.cpp
+++ b/src/clib/ct.cpp
@@ -205,7 +205,7 @@ extern "C" {
         try {
             return SolutionCabinet::at(n)->nAdjacent();
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(npos, npos);
         }
     }
 
@@ -523,7 +523,7 @@ extern "C" {
         try {
             return ThermoCabinet::at(n)->nAtoms(k,m);
         } catch (...) {
-            return handleAllExceptions(ERR, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
@@ -1473,7 +1473,7 @@ extern "C" {
         try {
             return TransportCabinet::at(n)->viscosity();
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
@@ -1482,7 +1482,7 @@ extern "C" {
         try {
             return TransportCabinet::at(n)->electricalConductivity();
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
@@ -1491,7 +1491,7 @@ extern "C" {
         try {
             return TransportCabinet::at(n)->thermalConductivity();
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
diff --git a/src/clib/ctonedim.cpp b/src/clib/ctonedim.cpp
index 102cf20..9641272 100644
--- a/src/clib/ctonedim.cpp
+++ b/src/clib/ctonedim.cpp
@@ -120,7 +120,7 @@ extern "C" {
         try {
             return DomainCabinet::at(i)->componentIndex(name);
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(npos, npos);
         }
     }
 
diff --git a/src/clib/ctreactor.cpp b/src/clib/ctreactor.cpp
index 900758b..62e8f11 100644
--- a/src/clib/ctreactor.cpp
+++ b/src/clib/ctreactor.cpp
@@ -316,7 +316,7 @@ extern "C" {
         try {
             return NetworkCabinet::at(i)->time();
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
@@ -325,7 +325,7 @@ extern "C" {
         try {
             return NetworkCabinet::at(i)->rtol();
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
@@ -334,7 +334,7 @@ extern "C" {
         try {
             return NetworkCabinet::at(i)->atol();
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
@@ -343,7 +343,7 @@ extern "C" {
         try {
             return NetworkCabinet::at(i)->sensitivity(v, p, r);
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
diff --git a/src/fortran/fct.cpp b/src/fortran/fct.cpp
index aef8264..12f9859 100644
--- a/src/fortran/fct.cpp
+++ b/src/fortran/fct.cpp
@@ -578,7 +578,7 @@ extern "C" {
         try {
             return _fth(n)->refPressure();
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
@@ -699,7 +699,7 @@ extern "C" {
             auto kin = newKinetics(phases, f2string(filename, nlen));
             return KineticsCabinet::add(kin);
         } catch (...) {
-            return handleAllExceptions(999, ERR);
+            return handleAllExceptions(-1, ERR);
         }
     }
 
@@ -775,7 +775,7 @@ extern "C" {
         try {
             return _fkin(n)->reactantStoichCoeff(*k-1,*i-1);
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
@@ -784,7 +784,7 @@ extern "C" {
         try {
             return _fkin(n)->productStoichCoeff(*k-1,*i-1);
         } catch (...) {
-            return handleAllExceptions(-1, ERR);
+            return handleAllExceptions(DERR, DERR);
         }
     }
 
-- 
2.43.0


From cbe04aaf5a32f327eca13aa46a07ea0e975c2e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 02/35] fix: validate and convert reaction and phase indices in
 the Fortran interface

kin_isreversible_ and kin_multiplier_ used the one-based Fortran reaction index
without converting it; kin_multiplier_, kin_setmultiplier_ and kin_start_ read
or wrote outside of the arrays for an index out of range.
---
 src/fortran/fct.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fortran/fct.cpp b/src/fortran/fct.cpp
index 12f9859..2e1425b 100644
--- a/src/fortran/fct.cpp
+++ b/src/fortran/fct.cpp
@@ -716,7 +716,9 @@ extern "C" {
     integer kin_start_(const integer* n, integer* p)
     {
         try {
-            return _fkin(n)->kineticsSpeciesIndex(0, *p)+1;
+            Kinetics* kin = _fkin(n);
+            kin->checkPhaseIndex(*p);
+            return kin->kineticsSpeciesIndex(0, *p)+1;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
         }
@@ -828,7 +830,7 @@ extern "C" {
     integer kin_isreversible_(const integer* n, integer* i)
     {
         try {
-            return (int)_fkin(n)->isReversible(*i);
+            return (int)_fkin(n)->isReversible(*i-1);
         } catch (...) {
             return handleAllExceptions(-1, ERR);
         }
@@ -881,7 +883,9 @@ extern "C" {
     double kin_multiplier_(const integer* n, integer* i)
     {
         try {
-            return _fkin(n)->multiplier(*i);
+            Kinetics* kin = _fkin(n);
+            kin->checkReactionIndex(*i-1);
+            return kin->multiplier(*i-1);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
         }
@@ -917,7 +921,9 @@ extern "C" {
     status_t kin_setmultiplier_(const integer* n, integer* i, double* v)
     {
         try {
-            _fkin(n)->setMultiplier(*i-1,*v);
+            Kinetics* kin = _fkin(n);
+            kin->checkReactionIndex(*i-1);
+            kin->setMultiplier(*i-1,*v);
         } catch (...) {
             return handleAllExceptions(-1, ERR);
         }
-- 
2.43.0


From c479c68c01b20b7a6b8ba6013edac3e42779376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 03/35] fix: reject out-of-range indices and mismatched array
 lengths in the C interface

These functions read or wrote memory outside of the underlying arrays instead
of reporting an error: kin_start, bdry_massFraction, sim1D_setValue,
sim1D_setRefineCriteria, sim1D_setGridMin, reactor_massFraction,
reactornet_sensitivity, flow1D_setFixedTempProfile, sim1D_setProfile,
rdiag_findMajor.
---
 include/cantera/zeroD/ReactorBase.h |  4 ++++
 src/clib/ct.cpp                     |  4 +++-
 src/clib/ctonedim.cpp               | 20 ++++++++++++++++++--
 src/kinetics/ReactionPath.cpp       |  6 ++++++
 src/oneD/Sim1D.cpp                  |  5 +++++
 src/zeroD/ReactorNet.cpp            |  4 ++++
 6 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/include/cantera/zeroD/ReactorBase.h b/include/cantera/zeroD/ReactorBase.h
index b343a88..08f207a 100644
--- a/include/cantera/zeroD/ReactorBase.h
+++ b/include/cantera/zeroD/ReactorBase.h
@@ -257,6 +257,10 @@ public:
             throw CanteraError("ReactorBase::massFraction",
                                "Reactor state empty and/or contents not defined.");
         }
+        if (k >= m_state.size() - 2) {
+            throw IndexError("ReactorBase::massFraction", "species", k,
+                             m_state.size() - 2);
+        }
         return m_state[k+2];
     }
 
diff --git a/src/clib/ct.cpp b/src/clib/ct.cpp
index 84f2493..f54f8ff 100644
--- a/src/clib/ct.cpp
+++ b/src/clib/ct.cpp
@@ -1132,7 +1132,9 @@ extern "C" {
     size_t kin_start(int n, int p)
     {
         try {
-            return KineticsCabinet::at(n)->kineticsSpeciesIndex(0,p);
+            auto& kin = KineticsCabinet::at(n);
+            kin->checkPhaseIndex(p);
+            return kin->kineticsSpeciesIndex(0,p);
         } catch (...) {
             return handleAllExceptions(npos, npos);
         }
diff --git a/src/clib/ctonedim.cpp b/src/clib/ctonedim.cpp
index 9641272..0199e75 100644
--- a/src/clib/ctonedim.cpp
+++ b/src/clib/ctonedim.cpp
@@ -298,7 +298,12 @@ extern "C" {
     double bdry_massFraction(int i, int k)
     {
         try {
-            return DomainCabinet::as<Boundary1D>(i)->massFraction(k);
+            auto bdry = DomainCabinet::as<Boundary1D>(i);
+            size_t nsp = bdry->nSpecies();
+            if (k < 0 || static_cast<size_t>(k) >= nsp) {
+                throw IndexError("bdry_massFraction", "species", k, nsp);
+            }
+            return bdry->massFraction(k);
         } catch (...) {
             return handleAllExceptions(DERR, DERR);
         }
@@ -389,6 +394,10 @@ extern "C" {
                                    size_t m, const double* temp)
     {
         try {
+            if (n != m) {
+                throw CanteraError("flow1D_setFixedTempProfile",
+                    "Position and temperature arrays differ in size: {} != {}", n, m);
+            }
             vector<double> vpos(n), vtemp(n);
             for (size_t j = 0; j < n; j++) {
                 vpos[j] = pos[j];
@@ -443,7 +452,10 @@ extern "C" {
     int sim1D_setValue(int i, int dom, int comp, int localPoint, double value)
     {
         try {
-            SimCabinet::at(i)->setValue(dom, comp, localPoint, value);
+            auto& sim = SimCabinet::at(i);
+            sim->checkDomainIndex(dom);
+            sim->domain(dom).checkComponentIndex(comp);
+            sim->setValue(dom, comp, localPoint, value);
             return 0;
         } catch (...) {
             return handleAllExceptions(-1, ERR);
@@ -457,6 +469,10 @@ extern "C" {
             auto& sim = SimCabinet::at(i);
             sim->checkDomainIndex(dom);
             sim->domain(dom).checkComponentIndex(comp);
+            if (np != nv) {
+                throw CanteraError("sim1D_setProfile",
+                    "Position and value arrays differ in size: {} != {}", np, nv);
+            }
             vector<double> vv, pv;
             for (size_t n = 0; n < np; n++) {
                 vv.push_back(v[n]);
diff --git a/src/kinetics/ReactionPath.cpp b/src/kinetics/ReactionPath.cpp
index 48cbfc2..5d076b7 100644
--- a/src/kinetics/ReactionPath.cpp
+++ b/src/kinetics/ReactionPath.cpp
@@ -144,6 +144,12 @@ void ReactionPathDiagram::add(shared_ptr<ReactionPathDiagram> d)
 
 void ReactionPathDiagram::findMajorPaths(double athreshold, size_t lda, double* a)
 {
+    for (size_t n = 0; n < nNodes(); n++) {
+        if (m_speciesNumber[n] >= lda) {
+            throw ArraySizeError("ReactionPathDiagram::findMajorPaths", lda,
+                                 m_speciesNumber[n] + 1);
+        }
+    }
     double netmax = 0.0;
     for (size_t n = 0; n < nNodes(); n++) {
         for (size_t m = n+1; m < nNodes(); m++) {
diff --git a/src/oneD/Sim1D.cpp b/src/oneD/Sim1D.cpp
index 0a0ce46..bc6071d 100644
--- a/src/oneD/Sim1D.cpp
+++ b/src/oneD/Sim1D.cpp
@@ -837,6 +837,7 @@ void Sim1D::setRefineCriteria(int dom, double ratio,
                               double slope, double curve, double prune)
 {
     if (dom >= 0) {
+        checkDomainIndex(dom);
         Refiner& r = domain(dom).refiner();
         r.setCriteria(ratio, slope, curve, prune);
     } else {
@@ -850,6 +851,7 @@ void Sim1D::setRefineCriteria(int dom, double ratio,
 vector<double> Sim1D::getRefineCriteria(int dom)
 {
    if (dom >= 0) {
+       checkDomainIndex(dom);
        Refiner& r = domain(dom).refiner();
        return r.getCriteria();
    } else {
@@ -861,6 +863,7 @@ vector<double> Sim1D::getRefineCriteria(int dom)
 void Sim1D::setGridMin(int dom, double gridmin)
 {
     if (dom >= 0) {
+        checkDomainIndex(dom);
         Refiner& r = domain(dom).refiner();
         r.setGridMin(gridmin);
     } else {
@@ -874,6 +877,7 @@ void Sim1D::setGridMin(int dom, double gridmin)
 void Sim1D::setMaxGridPoints(int dom, int npoints)
 {
     if (dom >= 0) {
+        checkDomainIndex(dom);
         Refiner& r = domain(dom).refiner();
         r.setMaxPoints(npoints);
     } else {
@@ -886,6 +890,7 @@ void Sim1D::setMaxGridPoints(int dom, int npoints)
 
 size_t Sim1D::maxGridPoints(size_t dom)
 {
+    checkDomainIndex(dom);
     Refiner& r = domain(dom).refiner();
     return r.maxPoints();
 }
diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index e3ea679..1fd9fa5 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -500,6 +500,10 @@ size_t ReactorNet::globalComponentIndex(const string& component, size_t reactor)
     if (!m_init) {
         initialize();
     }
+    if (reactor >= m_reactors.size()) {
+        throw IndexError("ReactorNet::globalComponentIndex", "reactors", reactor,
+                         m_reactors.size());
+    }
     return m_start[reactor] + m_reactors[reactor]->componentIndex(component);
 }
 
-- 
2.43.0


From 0399adec2323953029f4cabe971f1510ea4f11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 04/35] fix: match Fortran definitions to their interface block

ctaddcanteradirectory_ read a CHARACTER argument, which is not null-terminated,
up to the next null character instead of its passed length, and
trans_newdefault_ declared a length that callers do not pass.
---
 src/fortran/fct.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fortran/fct.cpp b/src/fortran/fct.cpp
index 2e1425b..da81b9b 100644
--- a/src/fortran/fct.cpp
+++ b/src/fortran/fct.cpp
@@ -961,7 +961,7 @@ extern "C" {
         }
     }
 
-    integer trans_newdefault_(integer* ith, integer* loglevel, ftnlen lenmodel)
+    integer trans_newdefault_(integer* ith, integer* loglevel)
     {
         try {
             auto t = _fthermo(ith);
@@ -1096,10 +1096,10 @@ extern "C" {
         return 0;
     }
 
-    status_t ctaddcanteradirectory_(integer* buflen, char* buf)
+    status_t ctaddcanteradirectory_(integer* buflen, char* buf, ftnlen lenbuf)
     {
         try {
-            addDirectory(string(buf));
+            addDirectory(f2string(buf, lenbuf));
         } catch (...) {
             return handleAllExceptions(-1, ERR);
         }
-- 
2.43.0


From 02e66b5f1ed39372733c93b8c1bde8ec559a3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 05/35] fix: call existing C functions with the right arguments
 in the MATLAB toolbox

---
 interfaces/matlab_experimental/OneDim/Sim1D.m       | 8 ++------
 interfaces/matlab_experimental/Reactor/FlowDevice.m | 2 +-
 interfaces/matlab_experimental/Reactor/ReactorNet.m | 2 +-
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/interfaces/matlab_experimental/OneDim/Sim1D.m b/interfaces/matlab_experimental/OneDim/Sim1D.m
index 0e87c5b..6a18b63 100644
--- a/interfaces/matlab_experimental/OneDim/Sim1D.m
+++ b/interfaces/matlab_experimental/OneDim/Sim1D.m
@@ -55,14 +55,10 @@ classdef Sim1D < handle
 
         %% Sim1D Utility Methods
 
-        function display(s, fname)
+        function display(s)
             % Show all domains.
 
-            if nargin == 1
-                fname = '-';
-            end
-
-            ctFunc('sim1D_show', s.stID, fname);
+            ctFunc('sim1D_show', s.stID);
         end
 
         function restore(s, fname, id)
diff --git a/interfaces/matlab_experimental/Reactor/FlowDevice.m b/interfaces/matlab_experimental/Reactor/FlowDevice.m
index 9072cf1..3fdc8bb 100644
--- a/interfaces/matlab_experimental/Reactor/FlowDevice.m
+++ b/interfaces/matlab_experimental/Reactor/FlowDevice.m
@@ -72,7 +72,7 @@ classdef FlowDevice < Connector
         %% FlowDevice Get Methods
 
         function mdot = get.massFlowRate(f)
-            mdot = ctFunc('flowdev_massFlowRate2', f.id);
+            mdot = ctFunc('flowdev_massFlowRate', f.id);
         end
 
         %% FlowDevice Set Methods
diff --git a/interfaces/matlab_experimental/Reactor/ReactorNet.m b/interfaces/matlab_experimental/Reactor/ReactorNet.m
index f12c943..8b87863 100644
--- a/interfaces/matlab_experimental/Reactor/ReactorNet.m
+++ b/interfaces/matlab_experimental/Reactor/ReactorNet.m
@@ -159,7 +159,7 @@ classdef ReactorNet < handle
         %% ReactorNet get methods
 
         function t = get.dt(r)
-            t = ctFunc('reactor_step', r.id);
+            t = ctFunc('reactornet_step', r.id);
         end
 
         function t = get.time(r)
-- 
2.43.0


From f42f15672487348250e4d1715d583709aa29de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 06/35] fix: report C++ exceptions as Python exceptions where
 the declaration had no handler

---
 interfaces/cython/cantera/_onedim.pxd      |  8 ++++----
 interfaces/cython/cantera/_utils.pxd       |  2 +-
 interfaces/cython/cantera/delegator.pxd    | 10 +++++-----
 interfaces/cython/cantera/delegator.pyx    |  7 +++----
 interfaces/cython/cantera/kinetics.pxd     |  8 ++++----
 interfaces/cython/cantera/reaction.pxd     | 10 +++++-----
 interfaces/cython/cantera/reactor.pxd      | 20 ++++++++++----------
 interfaces/cython/cantera/solutionbase.pxd | 14 +++++++-------
 interfaces/cython/cantera/thermo.pxd       |  8 ++++----
 src/extensions/PythonExtensionManager.cpp  |  8 +++++++-
 10 files changed, 50 insertions(+), 45 deletions(-)

diff --git a/interfaces/cython/cantera/_onedim.pxd b/interfaces/cython/cantera/_onedim.pxd
index 7a7a269..fbbd574 100644
--- a/interfaces/cython/cantera/_onedim.pxd
+++ b/interfaces/cython/cantera/_onedim.pxd
@@ -55,9 +55,9 @@ cdef extern from "cantera/oneD/Boundary1D.h":
         size_t nSpecies()
         void setMoleFractions(double*) except +translate_exception
         void setMoleFractions(string) except +translate_exception
-        double massFraction(size_t)
-        double spreadRate()
-        void setSpreadRate(double)
+        double massFraction(size_t) except +translate_exception
+        double spreadRate() except +translate_exception
+        void setSpreadRate(double) except +translate_exception
 
     cdef cppclass CxxReactingSurf1D "Cantera::ReactingSurf1D" (CxxBoundary1D):
         CxxReactingSurf1D()
@@ -81,7 +81,7 @@ cdef extern from "cantera/oneD/Flow1D.h":
         void solveElectricField() except +translate_exception
         void fixElectricField() except +translate_exception
         cbool doElectricField(size_t) except +translate_exception
-        void setBoundaryEmissivities(double, double)
+        void setBoundaryEmissivities(double, double) except +translate_exception
         double leftEmissivity()
         double rightEmissivity()
         void solveEnergyEqn()
diff --git a/interfaces/cython/cantera/_utils.pxd b/interfaces/cython/cantera/_utils.pxd
index 934a36e..0842b94 100644
--- a/interfaces/cython/cantera/_utils.pxd
+++ b/interfaces/cython/cantera/_utils.pxd
@@ -35,7 +35,7 @@ cdef extern from "cantera/base/AnyMap.h" namespace "Cantera":
         cbool empty()
         cbool hasKey(string)
         void clear()
-        void update(CxxAnyMap& other, cbool)
+        void update(CxxAnyMap& other, cbool) except +translate_exception
         string keys_str()
         void applyUnits() except +translate_exception
         shared_ptr[CxxUnitSystem] unitsShared()
diff --git a/interfaces/cython/cantera/delegator.pxd b/interfaces/cython/cantera/delegator.pxd
index 721ddd7..d1abf7e 100644
--- a/interfaces/cython/cantera/delegator.pxd
+++ b/interfaces/cython/cantera/delegator.pxd
@@ -37,7 +37,7 @@ cdef extern from "cantera/base/Delegator.h" namespace "Cantera":
 
         void setDelegatorName(string&)
         void holdExternalHandle(string&, shared_ptr[CxxExternalHandle]&)
-        shared_ptr[CxxExternalHandle] getExternalHandle(string&)
+        shared_ptr[CxxExternalHandle] getExternalHandle(string&) except +translate_exception
 
         void setDelegate(string&, function[void()], string&) except +translate_exception
         void setDelegate(string&, function[void(cbool)], string&) except +translate_exception
@@ -83,25 +83,25 @@ cdef extern from "cantera/base/ExtensionManager.h" namespace "Cantera":
         void registerRateBuilder(string&, string&, string&) except +translate_exception
         void registerRateDataBuilder(string&, string&, string&) except +translate_exception
 
-        shared_ptr[CxxExtensionManager] build(string&)
+        shared_ptr[CxxExtensionManager] build(string&) except +translate_exception
 
 
 cdef extern from "cantera/base/ExtensionManagerFactory.h" namespace "Cantera":
     cdef cppclass CxxExtensionManagerFactory "Cantera::ExtensionManagerFactory":
         @staticmethod
-        shared_ptr[CxxExtensionManager] build(string&)
+        shared_ptr[CxxExtensionManager] build(string&) except +translate_exception
 
 
 cdef extern from "cantera/extensions/PythonExtensionManager.h" namespace "Cantera":
     cdef cppclass CxxPythonExtensionManager "Cantera::PythonExtensionManager" (CxxExtensionManager):
         @staticmethod
-        void registerSelf()
+        void registerSelf() except +translate_exception
 
 
 cdef extern from "cantera/base/ExtensionManagerFactory.h" namespace "Cantera":
     cdef cppclass CxxExtensionManagerFactory "Cantera::ExtensionManagerFactory":
         @staticmethod
-        shared_ptr[CxxExtensionManager] build(string&)
+        shared_ptr[CxxExtensionManager] build(string&) except +translate_exception
 
 
 ctypedef CxxDelegator* CxxDelegatorPtr
diff --git a/interfaces/cython/cantera/delegator.pyx b/interfaces/cython/cantera/delegator.pyx
index fe2dc16..4f62699 100644
--- a/interfaces/cython/cantera/delegator.pyx
+++ b/interfaces/cython/cantera/delegator.pyx
@@ -115,8 +115,8 @@ cdef void callback_v_b(PyFuncInfo& funcInfo, cbool arg) noexcept:
 
 # Wrapper for functions of type void(AnyMap&)
 cdef void callback_v_AMr(PyFuncInfo& funcInfo, CxxAnyMap& arg) noexcept:
-    pyArg = anymap_to_py(<CxxAnyMap&>arg)  # cast away constness
     try:
+        pyArg = anymap_to_py(<CxxAnyMap&>arg)  # cast away constness
         (<object>funcInfo.func())(pyArg)
         # return updated AnyMap to C++. Odd syntax is a workaround for Cython's
         # unwillingness to assign to a reference
@@ -129,10 +129,9 @@ cdef void callback_v_AMr(PyFuncInfo& funcInfo, CxxAnyMap& arg) noexcept:
 # Wrapper for functions of type void(const AnyMap&, const UnitStack&)
 cdef void callback_v_cAMr_cUSr(PyFuncInfo& funcInfo, const CxxAnyMap& arg1,
                                const CxxUnitStack& arg2) noexcept:
-
-    pyArg1 = anymap_to_py(<CxxAnyMap&>arg1)  # cast away constness
-    pyArg2 = UnitStack.copy(arg2)
     try:
+        pyArg1 = anymap_to_py(<CxxAnyMap&>arg1)  # cast away constness
+        pyArg2 = UnitStack.copy(arg2)
         (<object>funcInfo.func())(pyArg1, pyArg2)
     except BaseException as e:
         exc_type, exc_value = sys.exc_info()[:2]
diff --git a/interfaces/cython/cantera/kinetics.pxd b/interfaces/cython/cantera/kinetics.pxd
index e341f76..50b0808 100644
--- a/interfaces/cython/cantera/kinetics.pxd
+++ b/interfaces/cython/cantera/kinetics.pxd
@@ -24,10 +24,10 @@ cdef extern from "cantera/kinetics/Kinetics.h" namespace "Cantera":
         int nTotalSpecies()
         int nReactions()
         int nPhases()
-        int phaseIndex(string)
+        int phaseIndex(string) except +translate_exception
         int kineticsSpeciesIndex(int, int)
-        int kineticsSpeciesIndex(string)
-        string kineticsSpeciesName(int)
+        int kineticsSpeciesIndex(string) except +translate_exception
+        string kineticsSpeciesName(int) except +translate_exception
 
         CxxThermoPhase& thermo(int)
 
@@ -38,7 +38,7 @@ cdef extern from "cantera/kinetics/Kinetics.h" namespace "Cantera":
         cbool addReaction(shared_ptr[CxxReaction], cbool) except +translate_exception
         void modifyReaction(int, shared_ptr[CxxReaction]) except +translate_exception
         void invalidateCache() except +translate_exception
-        void resizeReactions()
+        void resizeReactions() except +translate_exception
 
         shared_ptr[CxxReaction] reaction(size_t) except +translate_exception
         double reactantStoichCoeff(int, int) except +translate_exception
diff --git a/interfaces/cython/cantera/reaction.pxd b/interfaces/cython/cantera/reaction.pxd
index cce4e82..7b91037 100644
--- a/interfaces/cython/cantera/reaction.pxd
+++ b/interfaces/cython/cantera/reaction.pxd
@@ -102,7 +102,7 @@ cdef extern from "cantera/kinetics/Reaction.h" namespace "Cantera":
 
     cdef cppclass CxxThirdBody "Cantera::ThirdBody":
         CxxThirdBody()
-        CxxThirdBody(string)
+        CxxThirdBody(string) except +translate_exception
         double efficiency(string)
         string name()
         Composition efficiencies
@@ -120,7 +120,7 @@ cdef extern from "cantera/kinetics/Reaction.h" namespace "Cantera":
         string productString()
         string equation()
         void setEquation(const string&) except +translate_exception
-        string type()
+        string type() except +translate_exception
         CxxAnyMap parameters(cbool) except +translate_exception
         cbool usesThirdBody()
         CxxAnyMap input
@@ -136,7 +136,7 @@ cdef extern from "cantera/kinetics/Reaction.h" namespace "Cantera":
         CxxUnits rate_units
 
         shared_ptr[CxxReactionRate] rate()
-        void setRate(shared_ptr[CxxReactionRate])
+        void setRate(shared_ptr[CxxReactionRate]) except +translate_exception
 
 
 cdef extern from "cantera/kinetics/Falloff.h" namespace "Cantera":
@@ -172,7 +172,7 @@ cdef extern from "cantera/kinetics/PlogRate.h" namespace "Cantera":
     cdef cppclass CxxPlogRate "Cantera::PlogRate" (CxxReactionRate):
         CxxPlogRate()
         CxxPlogRate(CxxAnyMap) except +translate_exception
-        CxxPlogRate(multimap[double, CxxArrheniusRate])
+        CxxPlogRate(multimap[double, CxxArrheniusRate]) except +translate_exception
         multimap[double, CxxArrheniusRate] getRates()
 
 cdef extern from "cantera/kinetics/LinearBurkeRate.h" namespace "Cantera":
@@ -211,7 +211,7 @@ cdef extern from "cantera/kinetics/ReactionRateDelegator.h" namespace "Cantera":
 
 cdef extern from "cantera/kinetics/InterfaceRate.h" namespace "Cantera":
     cdef cppclass CxxInterfaceRateBase "Cantera::InterfaceRateBase":
-        void getCoverageDependencies(CxxAnyMap)
+        void getCoverageDependencies(CxxAnyMap) except +translate_exception
         void setCoverageDependencies(CxxAnyMap) except +translate_exception
         void setSpecies(vector[string]&) except +translate_exception
         double siteDensity()
diff --git a/interfaces/cython/cantera/reactor.pxd b/interfaces/cython/cantera/reactor.pxd
index 3db4274..a057944 100644
--- a/interfaces/cython/cantera/reactor.pxd
+++ b/interfaces/cython/cantera/reactor.pxd
@@ -54,7 +54,7 @@ cdef extern from "cantera/zerodim.h" namespace "Cantera":
         cbool energyEnabled()
         size_t componentIndex(string&) except +translate_exception
         string componentName(size_t) except +translate_exception
-        size_t neq()
+        size_t neq() except +translate_exception
         void getState(double*) except +translate_exception
         CxxSparseMatrix jacobian() except +translate_exception
         CxxSparseMatrix finiteDifferenceJacobian() except +translate_exception
@@ -90,10 +90,10 @@ cdef extern from "cantera/zerodim.h" namespace "Cantera":
         void setName(string) except +translate_exception
         double area()
         void setArea(double)
-        void setKinetics(CxxKinetics*)
-        void setCoverages(double*)
+        void setKinetics(CxxKinetics*) except +translate_exception
+        void setCoverages(double*) except +translate_exception
         void setCoverages(Composition&) except +translate_exception
-        void syncState()
+        void syncState() except +translate_exception
         void addSensitivityReaction(size_t) except +translate_exception
         size_t nSensParams()
 
@@ -130,9 +130,9 @@ cdef extern from "cantera/zerodim.h" namespace "Cantera":
         double getHeatTransferCoeff()
         void setEmissivity(double) except +translate_exception
         double getEmissivity()
-        double velocity()
+        double velocity() except +translate_exception
         void setVelocity(CxxFunc1*)
-        double heatFlux()
+        double heatFlux() except +translate_exception
         void setHeatFlux(CxxFunc1*)
 
     # flow devices
@@ -184,13 +184,13 @@ cdef extern from "cantera/zerodim.h" namespace "Cantera":
         void setMaxErrTestFails(int) except +translate_exception
         CxxIntegrator& integrator() except +translate_exception
         void setMaxSteps(int) except +translate_exception
-        int maxSteps()
+        int maxSteps() except +translate_exception
         cbool verbose()
         void setVerbose(cbool)
         size_t neq()
-        void getState(double*)
+        void getState(double*) except +translate_exception
         void getDerivative(int, double *) except +translate_exception
-        void setAdvanceLimits(double*)
+        void setAdvanceLimits(double*) except +translate_exception
         cbool getAdvanceLimits(double*)
         string componentName(size_t) except +translate_exception
         size_t globalComponentIndex(string&, int) except +translate_exception
@@ -204,7 +204,7 @@ cdef extern from "cantera/zerodim.h" namespace "Cantera":
         void setLinearSolverType(string& integratorType) except +translate_exception
         string linearSolverType()
         void setPreconditioner(shared_ptr[CxxSystemJacobian] preconditioner)
-        void setDerivativeSettings(CxxAnyMap&)
+        void setDerivativeSettings(CxxAnyMap&) except +translate_exception
         CxxAnyMap solverStats() except +translate_exception
 
 cdef extern from "cantera/zeroD/ReactorDelegator.h" namespace "Cantera":
diff --git a/interfaces/cython/cantera/solutionbase.pxd b/interfaces/cython/cantera/solutionbase.pxd
index 72725a3..136ae75 100644
--- a/interfaces/cython/cantera/solutionbase.pxd
+++ b/interfaces/cython/cantera/solutionbase.pxd
@@ -37,10 +37,10 @@ cdef extern from "cantera/base/Solution.h" namespace "Cantera":
     cdef cppclass CxxAnyMap "Cantera::AnyMap"
     cdef cppclass CxxSolution "Cantera::Solution":
         CxxSolution()
-        string name()
-        void setName(string)
-        string source()
-        void setSource(string)
+        string name() except +translate_exception
+        void setName(string) except +translate_exception
+        string source() except +translate_exception
+        void setSource(string) except +translate_exception
         CxxAnyMap& header() except +translate_exception
         shared_ptr[CxxThermoPhase] thermo()
         void setThermo(shared_ptr[CxxThermoPhase]) except +translate_exception
@@ -50,7 +50,7 @@ cdef extern from "cantera/base/Solution.h" namespace "Cantera":
         void setTransportModel(const string&) except +translate_exception
         CxxAnyMap parameters(cbool) except +translate_exception
         size_t nAdjacent()
-        shared_ptr[CxxSolution] adjacent(size_t)
+        shared_ptr[CxxSolution] adjacent(size_t) except +translate_exception
         void holdExternalHandle(string&, shared_ptr[CxxExternalHandle])
         void registerChangedCallback(void*, function[void()])
         void removeChangedCallback(void*)
@@ -75,14 +75,14 @@ cdef extern from "cantera/base/SolutionArray.h" namespace "Cantera":
         CxxAnyMap meta()
         void setMeta(CxxAnyMap&)
         vector[string] componentNames() except +translate_exception
-        cbool hasComponent(string&)
+        cbool hasComponent(string&) except +translate_exception
         CxxAnyValue getComponent(string&) except +translate_exception
         void setComponent(string&, CxxAnyValue&) except +translate_exception
         void setLoc(int) except +translate_exception
         void updateState(int) except +translate_exception
         vector[double] getState(int) except +translate_exception
         void setState(int, vector[double]&) except +translate_exception
-        vector[string] listExtra()
+        vector[string] listExtra() except +translate_exception
         cbool hasExtra(string&)
         void addExtra(string&, cbool) except +translate_exception
         CxxAnyMap getAuxiliary(int) except +translate_exception
diff --git a/interfaces/cython/cantera/thermo.pxd b/interfaces/cython/cantera/thermo.pxd
index a22beca..68f0944 100644
--- a/interfaces/cython/cantera/thermo.pxd
+++ b/interfaces/cython/cantera/thermo.pxd
@@ -107,7 +107,7 @@ cdef extern from "cantera/thermo/ThermoPhase.h" namespace "Cantera":
         void setMassFractionsByName(string) except +translate_exception
         void setMassFractionsByName(Composition&) except +translate_exception
         void setMassFractions_NoNorm(double*) except +translate_exception
-        Composition getMassFractionsByName(double)
+        Composition getMassFractionsByName(double) except +translate_exception
         double massFraction(size_t) except +translate_exception
         double massFraction(string) except +translate_exception
 
@@ -115,7 +115,7 @@ cdef extern from "cantera/thermo/ThermoPhase.h" namespace "Cantera":
         void setMoleFractionsByName(Composition&) except +translate_exception
         void setMoleFractions_NoNorm(double*) except +translate_exception
         void getMoleFractions(double*) except +translate_exception
-        Composition getMoleFractionsByName(double)
+        Composition getMoleFractionsByName(double) except +translate_exception
         double moleFraction(size_t) except +translate_exception
         double moleFraction(string) except +translate_exception
 
@@ -208,8 +208,8 @@ cdef extern from "cantera/thermo/PlasmaPhase.h":
         double isotropicShapeFactor()
         double meanElectronEnergy()
         size_t nElectronEnergyLevels()
-        double electronPressure()
-        string electronSpeciesName()
+        double electronPressure() except +translate_exception
+        string electronSpeciesName() except +translate_exception
         double elasticPowerLoss() except +translate_exception
 
 
diff --git a/src/extensions/PythonExtensionManager.cpp b/src/extensions/PythonExtensionManager.cpp
index 42edc97..b520bb6 100644
--- a/src/extensions/PythonExtensionManager.cpp
+++ b/src/extensions/PythonExtensionManager.cpp
@@ -73,7 +73,13 @@ void PythonExtensionManager::registerRateBuilders(const string& extensionName)
         throw CanteraError("PythonExtensionManager::registerRateBuilders",
                            "Problem loading module:\n{}", getPythonExceptionInfo());
     }
-    ct_registerReactionDelegators();
+    PyObject* registered = ct_registerReactionDelegators();
+    if (registered == nullptr) {
+        throw CanteraError("PythonExtensionManager::registerRateBuilders",
+                           "Problem in ct_registerReactionDelegators:\n{}",
+                           getPythonExceptionInfo());
+    }
+    Py_DECREF(registered);
 }
 
 void PythonExtensionManager::registerRateBuilder(
-- 
2.43.0


From 4a3e8d6f1b8323639ed82b55008ed98f0f85cd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:54 +0000
Subject: [PATCH 07/35] fix: coverage-dependent surface terms track their own
 temperature

The reference-state update advances m_tlast, so a reference-state query after a
temperature change left the coverage-dependent terms at the old temperature.
---
 include/cantera/thermo/CoverageDependentSurfPhase.h | 4 ++++
 src/thermo/CoverageDependentSurfPhase.cpp           | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/CoverageDependentSurfPhase.h b/include/cantera/thermo/CoverageDependentSurfPhase.h
index 8836200..3db9b89 100644
--- a/include/cantera/thermo/CoverageDependentSurfPhase.h
+++ b/include/cantera/thermo/CoverageDependentSurfPhase.h
@@ -427,6 +427,10 @@ private:
     //! Last value of the state number processed.
     mutable int m_stateNumlast;
 
+    //! Last value of the temperature used to evaluate the coverage-dependent
+    //! terms. Kept separately from #m_tlast, which only tracks the reference state.
+    mutable double m_tlastCov = -1.0;
+
     //! Update the species coverage-dependent thermodynamic functions.
     /*!
      * The coverage-dependent enthalpy and entropy are only re-evaluated
diff --git a/src/thermo/CoverageDependentSurfPhase.cpp b/src/thermo/CoverageDependentSurfPhase.cpp
index b942c39..fff5784 100644
--- a/src/thermo/CoverageDependentSurfPhase.cpp
+++ b/src/thermo/CoverageDependentSurfPhase.cpp
@@ -457,7 +457,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
 {
     int stateNumnow = stateMFNumber();
     double tnow = temperature();
-    if (m_stateNumlast != stateNumnow || m_tlast != tnow) {
+    if (m_stateNumlast != stateNumnow || m_tlastCov != tnow) {
         for (size_t k = 0; k < m_kk; k++) {
             m_h_cov[k] = 0.0;
             m_s_cov[k] = 0.0;
@@ -524,6 +524,7 @@ void CoverageDependentSurfPhase::_updateCovDepThermo() const
             m_mu_cov[k] = m_h_cov[k] - tnow * m_s_cov[k];
         }
         m_stateNumlast = stateNumnow;
+        m_tlastCov = tnow;
     }
 }
 
-- 
2.43.0


From 0ee70e518f6f6ad3e5578c341a11a9a98fa159aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:54 +0000
Subject: [PATCH 08/35] fix: multicomponent transport does not reuse
 coefficients of another temperature

Binary diffusion coefficients and viscosities computed for another temperature, and
a self-diffusion diagonal overwritten by a different query, entered the L matrix.
---
 include/cantera/transport/MultiTransport.h |  5 +++++
 src/transport/MultiTransport.cpp           | 24 +++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/include/cantera/transport/MultiTransport.h b/include/cantera/transport/MultiTransport.h
index 937813b..b1141ab 100644
--- a/include/cantera/transport/MultiTransport.h
+++ b/include/cantera/transport/MultiTransport.h
@@ -119,6 +119,11 @@ protected:
 
     double m_thermal_tlast;
 
+    //! Binary diffusion coefficients used in the L matrix, where the diagonal holds
+    //! the self-diffusion coefficients obtained from the species viscosities. Kept
+    //! separately from #m_bdiff, whose diagonal is given by the polynomial fits.
+    DenseMatrix m_bdiff_L;
+
     //! Dense matrix for astar
     DenseMatrix m_astar;
 
diff --git a/src/transport/MultiTransport.cpp b/src/transport/MultiTransport.cpp
index fb98f4e..42cd866 100644
--- a/src/transport/MultiTransport.cpp
+++ b/src/transport/MultiTransport.cpp
@@ -50,6 +50,7 @@ void MultiTransport::init(ThermoPhase* thermo, int mode)
     m_astar.resize(m_nsp, m_nsp);
     m_bstar.resize(m_nsp, m_nsp);
     m_cstar.resize(m_nsp, m_nsp);
+    m_bdiff_L.resize(m_nsp, m_nsp);
 
     // set flags all false
     m_l0000_ok = false;
@@ -400,6 +401,7 @@ void MultiTransport::update_T()
     // redone, and the L matrix reevaluated.
     m_lmatrix_soln_ok = false;
     m_l0000_ok = false;
+    m_thermal_tlast = Undef;
 }
 
 void MultiTransport::update_C()
@@ -421,7 +423,8 @@ void MultiTransport::update_C()
 
 void MultiTransport::updateThermal_T()
 {
-    if (m_thermal_tlast == m_thermo->temperature()) {
+    update_T();
+    if (m_thermal_tlast == m_temp) {
         return;
     }
     // we need species viscosities and binary diffusion coefficients
@@ -456,8 +459,9 @@ void MultiTransport::updateThermal_T()
     }
 
     double c = 1.2*GasConstant*m_temp;
+    m_bdiff_L = m_bdiff;
     for (size_t k = 0; k < m_nsp; k++) {
-        m_bdiff(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
+        m_bdiff_L(k,k) = c * m_visc[k] * m_astar(k,k)/m_mw[k];
     }
 
     // Calculate the internal heat capacities by subtracting off the translational contributions
@@ -474,7 +478,7 @@ void MultiTransport::updateThermal_T()
     for (size_t k = 0; k < m_nsp; k++) {
         m_cinternal[k] = cp[k] - 2.5;
     }
-    m_thermal_tlast = m_thermo->temperature();
+    m_thermal_tlast = m_temp;
 }
 
 //! Constant to compare dimensionless heat capacities against zero
@@ -492,15 +496,15 @@ void MultiTransport::eval_L0000(const double* const x)
     for (size_t i = 0; i < m_nsp; i++) {
         // subtract-off the k=i term to account for the first delta
         // function in Eq. (12.121)
-        sum = -x[i]/m_bdiff(i,i);
+        sum = -x[i]/m_bdiff_L(i,i);
         for (size_t k = 0; k < m_nsp; k++) {
-            sum += x[k]/m_bdiff(i,k);
+            sum += x[k]/m_bdiff_L(i,k);
         }
 
         sum /= m_mw[i];
         for (size_t j = 0; j != m_nsp; ++j) {
             m_Lmatrix(i,j) = prefactor * x[j]
-                             * (m_mw[j] * sum + x[i]/m_bdiff(i,j));
+                             * (m_mw[j] * sum + x[i]/m_bdiff_L(i,j));
         }
         // diagonal term is zero
         m_Lmatrix(i,i) = 0.0;
@@ -517,7 +521,7 @@ void MultiTransport::eval_L0010(const double* const x)
         for (size_t i = 0; i < m_nsp; i++) {
             m_Lmatrix(i,j + m_nsp) = - prefactor * x[i] * xj * m_mw[i] *
                                      (1.2 * m_cstar(j,i) - 1.0) /
-                                     ((wj + m_mw[i]) * m_bdiff(j,i));
+                                     ((wj + m_mw[i]) * m_bdiff_L(j,i));
 
             // the next term is independent of "j";
             // need to do it for the "j,j" term
@@ -553,7 +557,7 @@ void MultiTransport::eval_L1010(const double* x)
         double sum = 0.0;
         for (size_t i = 0; i < m_nsp; i++) {
             double sumwij = m_mw[i] + m_mw[j];
-            double term1 = m_bdiff(i,j) * sumwij*sumwij;
+            double term1 = m_bdiff_L(i,j) * sumwij*sumwij;
             double term2 = fourmj*m_astar(i,j)*(1.0 + fiveover3pi*
                 (constant3 + (m_crot[i]/m_rotrelax[i]))); //  see Eq. (12.125)
 
@@ -581,7 +585,7 @@ void MultiTransport::eval_L1001(const double* x)
             for (size_t i = 0; i < m_nsp; i++) {
                 // see Eq. (12.127)
                 m_Lmatrix(i+m_nsp,j+2*m_nsp) = constant * m_astar(j,i) * x[i] /
-                                          ((m_mw[j] + m_mw[i]) * m_bdiff(j,i));
+                                          ((m_mw[j] + m_mw[i]) * m_bdiff_L(j,i));
                 sum += m_Lmatrix(i+m_nsp,j+2*m_nsp);
             }
             m_Lmatrix(j+m_nsp,j+2*m_nsp) += sum;
@@ -631,7 +635,7 @@ void MultiTransport::eval_L0101(const double* x)
             double sum = 0.0;
             for (size_t k = 0; k < m_nsp; k++) {
                 // see Eq. (12.131)
-                double diff_int = m_bdiff(i,k);
+                double diff_int = m_bdiff_L(i,k);
                 m_Lmatrix(k+2*m_nsp,i+2*m_nsp) = 0.0;
                 sum += x[k]/diff_int;
                 if (k != i) {
-- 
2.43.0


From dc19727429eb5b414f8f2604bb36d968c8d66aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:54 +0000
Subject: [PATCH 09/35] fix: bulk equilibrium constants follow the pressure of
 incompressible phases

---
 src/kinetics/BulkKinetics.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kinetics/BulkKinetics.cpp b/src/kinetics/BulkKinetics.cpp
index 0b6ce9b..f96613f 100644
--- a/src/kinetics/BulkKinetics.cpp
+++ b/src/kinetics/BulkKinetics.cpp
@@ -462,7 +462,13 @@ void BulkKinetics::updateROP()
     double rho = thermo().density();
     int statenum = thermo().stateMFNumber();
 
-    if (last.state1 != T || last.state2 != rho) {
+    // For incompressible phases, the pressure is not determined by the density
+    static const int pressureCacheId = m_cache.getId();
+    CachedScalar lastPressure = m_cache.getScalar(pressureCacheId);
+    double P = thermo().isCompressible() ? 0.0 : thermo().pressure();
+    bool pressureChanged = !lastPressure.validate(P);
+
+    if (last.state1 != T || last.state2 != rho || pressureChanged) {
         // Update properties that are independent of the composition
         thermo().getStandardChemPotentials(m_grt.data());
         fill(m_delta_gibbs0.begin(), m_delta_gibbs0.end(), 0.0);
@@ -483,7 +489,7 @@ void BulkKinetics::updateROP()
         }
     }
 
-    if (!last.validate(T, rho, statenum)) {
+    if (!last.validate(T, rho, statenum) || pressureChanged) {
         // Update terms dependent on species concentrations and temperature
         thermo().getActivityConcentrations(m_act_conc.data());
         thermo().getConcentrations(m_phys_conc.data());
-- 
2.43.0


From 92ea41ce10fba55cd15898fff4d8456a1274659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:54 +0000
Subject: [PATCH 10/35] fix: real-gas reference state properties follow changes
 of species data

modifySpecies and modifyOneHf298SS invalidated the reference state, but the getters
returned the stored values until the next temperature change.
---
 src/thermo/MixtureFugacityTP.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/thermo/MixtureFugacityTP.cpp b/src/thermo/MixtureFugacityTP.cpp
index 39c1697..8ab806b 100644
--- a/src/thermo/MixtureFugacityTP.cpp
+++ b/src/thermo/MixtureFugacityTP.cpp
@@ -41,6 +41,7 @@ int MixtureFugacityTP::reportSolnBranchActual() const
 // ---- Molar Thermodynamic Properties ---------------------------
 double MixtureFugacityTP::enthalpy_mole() const
 {
+    _updateReferenceStateThermo();
    double h_ideal = RT() * mean_X(m_h0_RT);
    double h_nonideal = hresid();
    return h_ideal + h_nonideal;
@@ -49,6 +50,7 @@ double MixtureFugacityTP::enthalpy_mole() const
 
 double MixtureFugacityTP::entropy_mole() const
 {
+    _updateReferenceStateThermo();
     double s_ideal = GasConstant * (mean_X(m_s0_R) - sum_xlogx()
         - std::log(pressure()/refPressure()));
     double s_nonideal = sresid();
@@ -59,6 +61,7 @@ double MixtureFugacityTP::entropy_mole() const
 
 void MixtureFugacityTP::getStandardChemPotentials(double* g) const
 {
+    _updateReferenceStateThermo();
     copy(m_g0_RT.begin(), m_g0_RT.end(), g);
     double tmp = log(pressure() / refPressure());
     for (size_t k = 0; k < m_kk; k++) {
@@ -73,6 +76,7 @@ void MixtureFugacityTP::getEnthalpy_RT(double* hrt) const
 
 void MixtureFugacityTP::getEntropy_R(double* sr) const
 {
+    _updateReferenceStateThermo();
     copy(m_s0_R.begin(), m_s0_R.end(), sr);
     double tmp = log(pressure() / refPressure());
     for (size_t k = 0; k < m_kk; k++) {
@@ -82,6 +86,7 @@ void MixtureFugacityTP::getEntropy_R(double* sr) const
 
 void MixtureFugacityTP::getGibbs_RT(double* grt) const
 {
+    _updateReferenceStateThermo();
     copy(m_g0_RT.begin(), m_g0_RT.end(), grt);
     double tmp = log(pressure() / refPressure());
     for (size_t k = 0; k < m_kk; k++) {
@@ -91,6 +96,7 @@ void MixtureFugacityTP::getGibbs_RT(double* grt) const
 
 void MixtureFugacityTP::getPureGibbs(double* g) const
 {
+    _updateReferenceStateThermo();
     scale(m_g0_RT.begin(), m_g0_RT.end(), g, RT());
     double tmp = log(pressure() / refPressure()) * RT();
     for (size_t k = 0; k < m_kk; k++) {
@@ -100,6 +106,7 @@ void MixtureFugacityTP::getPureGibbs(double* g) const
 
 void MixtureFugacityTP::getIntEnergy_RT(double* urt) const
 {
+    _updateReferenceStateThermo();
     copy(m_h0_RT.begin(), m_h0_RT.end(), urt);
     for (size_t i = 0; i < m_kk; i++) {
         urt[i] -= 1.0;
@@ -108,6 +115,7 @@ void MixtureFugacityTP::getIntEnergy_RT(double* urt) const
 
 void MixtureFugacityTP::getCp_R(double* cpr) const
 {
+    _updateReferenceStateThermo();
     copy(m_cp0_R.begin(), m_cp0_R.end(), cpr);
 }
 
@@ -122,11 +130,13 @@ void MixtureFugacityTP::getStandardVolumes(double* vol) const
 
 void MixtureFugacityTP::getEnthalpy_RT_ref(double* hrt) const
 {
+    _updateReferenceStateThermo();
     copy(m_h0_RT.begin(), m_h0_RT.end(), hrt);
 }
 
 void MixtureFugacityTP::getGibbs_RT_ref(double* grt) const
 {
+    _updateReferenceStateThermo();
     copy(m_g0_RT.begin(), m_g0_RT.end(), grt);
 }
 
@@ -138,16 +148,19 @@ void MixtureFugacityTP::getGibbs_ref(double* g) const
 
 const vector<double>& MixtureFugacityTP::gibbs_RT_ref() const
 {
+    _updateReferenceStateThermo();
     return m_g0_RT;
 }
 
 void MixtureFugacityTP::getEntropy_R_ref(double* er) const
 {
+    _updateReferenceStateThermo();
     copy(m_s0_R.begin(), m_s0_R.end(), er);
 }
 
 void MixtureFugacityTP::getCp_R_ref(double* cpr) const
 {
+    _updateReferenceStateThermo();
     copy(m_cp0_R.begin(), m_cp0_R.end(), cpr);
 }
 
-- 
2.43.0


From 8171701726370ce1ee51c0758ac4d525704196c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:00 +0000
Subject: [PATCH 11/35] fix: surface and Blowers-Masel rates follow pressure
 and temperature of every phase

---
 include/cantera/kinetics/BlowersMaselRate.h |  1 +
 include/cantera/kinetics/InterfaceRate.h    |  6 ++++++
 src/kinetics/BlowersMaselRate.cpp           |  4 +++-
 src/kinetics/InterfaceRate.cpp              | 10 ++++++++++
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/cantera/kinetics/BlowersMaselRate.h b/include/cantera/kinetics/BlowersMaselRate.h
index d10db0b..b700df9 100644
--- a/include/cantera/kinetics/BlowersMaselRate.h
+++ b/include/cantera/kinetics/BlowersMaselRate.h
@@ -35,6 +35,7 @@ struct BlowersMaselData : public ReactionData
 
 protected:
     int m_state_mf_number = -1; //!< integer that is incremented when composition changes
+    double m_pressure = NAN; //!< pressure; not implied by density if incompressible
 };
 
 
diff --git a/include/cantera/kinetics/InterfaceRate.h b/include/cantera/kinetics/InterfaceRate.h
index 5fa1307..b9c686a 100644
--- a/include/cantera/kinetics/InterfaceRate.h
+++ b/include/cantera/kinetics/InterfaceRate.h
@@ -47,6 +47,8 @@ struct InterfaceData : public BlowersMaselData
         electricPotentials.resize(nPhases, 0.);
         standardChemPotentials.resize(nSpecies, 0.);
         standardConcentrations.resize(nSpecies, 0.);
+        m_phaseTemperatures.resize(nPhases, NAN);
+        m_phasePressures.resize(nPhases, NAN);
         ready = true;
     }
 
@@ -57,6 +59,10 @@ struct InterfaceData : public BlowersMaselData
     vector<double> electricPotentials; //!< electric potentials of phases
     vector<double> standardChemPotentials; //!< standard state chemical potentials
     vector<double> standardConcentrations; //!< standard state concentrations
+
+protected:
+    vector<double> m_phaseTemperatures; //!< temperatures of phases at last update
+    vector<double> m_phasePressures; //!< pressures of phases at last update
 };
 
 
diff --git a/src/kinetics/BlowersMaselRate.cpp b/src/kinetics/BlowersMaselRate.cpp
index c51d8d7..130acdd 100644
--- a/src/kinetics/BlowersMaselRate.cpp
+++ b/src/kinetics/BlowersMaselRate.cpp
@@ -20,6 +20,7 @@ void BlowersMaselData::update(double T) {
 bool BlowersMaselData::update(const ThermoPhase& phase, const Kinetics& kin)
 {
     double rho = phase.density();
+    double P = phase.pressure();
     int mf = phase.stateMFNumber();
     double T = phase.temperature();
     bool changed = false;
@@ -27,8 +28,9 @@ bool BlowersMaselData::update(const ThermoPhase& phase, const Kinetics& kin)
         ReactionData::update(T);
         changed = true;
     }
-    if (changed || rho != density || mf != m_state_mf_number) {
+    if (changed || rho != density || P != m_pressure || mf != m_state_mf_number) {
         density = rho;
+        m_pressure = P;
         m_state_mf_number = mf;
         phase.getPartialMolarEnthalpies(partialMolarEnthalpies.data());
         changed = true;
diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 9abaf0d..46f0f80 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -61,6 +61,16 @@ bool InterfaceData::update(const ThermoPhase& phase, const Kinetics& kin)
         sqrtT = sqrt(T);
         changed = true;
     }
+    for (size_t n = 0; n < kin.nPhases(); n++) {
+        // species properties of each phase depend on its own temperature and pressure
+        double Tn = kin.thermo(n).temperature();
+        double Pn = kin.thermo(n).pressure();
+        if (Tn != m_phaseTemperatures[n] || Pn != m_phasePressures[n]) {
+            m_phaseTemperatures[n] = Tn;
+            m_phasePressures[n] = Pn;
+            changed = true;
+        }
+    }
     if (changed || mf != m_state_mf_number) {
         surf.getCoverages(coverages.data());
         for (size_t n = 0; n < coverages.size(); n++) {
-- 
2.43.0


From 888f57c4bd54665e0ed33943acbc64d2fb74500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:00 +0000
Subject: [PATCH 12/35] fix: print the cropped molalities of the current state

---
 src/thermo/HMWSoln.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thermo/HMWSoln.cpp b/src/thermo/HMWSoln.cpp
index b00198b..e4a0162 100644
--- a/src/thermo/HMWSoln.cpp
+++ b/src/thermo/HMWSoln.cpp
@@ -3936,6 +3936,7 @@ void HMWSoln::s_updateIMS_lnMolalityActCoeff() const
 void HMWSoln::printCoeffs() const
 {
     calcMolalities();
+    calcMolalitiesCropped();
     vector<double>& moleF = m_workS;
 
     // Update the coefficients wrt Temperature. Calculate the derivatives as well
-- 
2.43.0


From bb09dd21084e7b7f14444cee619237bf759d16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:58 +0000
Subject: [PATCH 13/35] fix: density of standard-state based phases follows
 composition

---
 include/cantera/thermo/VPStandardStateTP.h |  2 ++
 src/thermo/GibbsExcessVPSSTP.cpp           |  2 +-
 src/thermo/VPStandardStateTP.cpp           | 10 ++++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/cantera/thermo/VPStandardStateTP.h b/include/cantera/thermo/VPStandardStateTP.h
index 4070376..7d36ad2 100644
--- a/include/cantera/thermo/VPStandardStateTP.h
+++ b/include/cantera/thermo/VPStandardStateTP.h
@@ -226,6 +226,8 @@ public:
 protected:
     void invalidateCache() override;
 
+    void compositionChanged() override;
+
     //! Current value of the pressure - state variable
     /*!
      * Because we are now using the pressure as a state variable, we need to
diff --git a/src/thermo/GibbsExcessVPSSTP.cpp b/src/thermo/GibbsExcessVPSSTP.cpp
index 8c625b1..7ebf08c 100644
--- a/src/thermo/GibbsExcessVPSSTP.cpp
+++ b/src/thermo/GibbsExcessVPSSTP.cpp
@@ -23,8 +23,8 @@ namespace Cantera
 
 void GibbsExcessVPSSTP::compositionChanged()
 {
-    Phase::compositionChanged();
     getMoleFractions(moleFractions_.data());
+    VPStandardStateTP::compositionChanged();
 }
 
 // ------------ Mechanical Properties ------------------------------
diff --git a/src/thermo/VPStandardStateTP.cpp b/src/thermo/VPStandardStateTP.cpp
index 37d7e19..44bbecd 100644
--- a/src/thermo/VPStandardStateTP.cpp
+++ b/src/thermo/VPStandardStateTP.cpp
@@ -252,6 +252,16 @@ const PDSS* VPStandardStateTP::providePDSS(size_t k) const
     return m_PDSS_storage[k].get();
 }
 
+void VPStandardStateTP::compositionChanged()
+{
+    ThermoPhase::compositionChanged();
+    // At constant temperature and pressure, the density depends on composition. There
+    // is nothing to update before the thermodynamic state is specified.
+    if (m_Tlast_ss > 0.0) {
+        calcDensity();
+    }
+}
+
 void VPStandardStateTP::invalidateCache()
 {
     ThermoPhase::invalidateCache();
-- 
2.43.0


From 8fc3fcd9d798b2c8aa1dcd7f6622df015c2e4e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 14/35] fix: composition derivatives of Redlich-Kister activity
 coefficients

---
 src/thermo/RedlichKisterVPSSTP.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/thermo/RedlichKisterVPSSTP.cpp b/src/thermo/RedlichKisterVPSSTP.cpp
index ecc1e2d..df77db9 100644
--- a/src/thermo/RedlichKisterVPSSTP.cpp
+++ b/src/thermo/RedlichKisterVPSSTP.cpp
@@ -336,7 +336,7 @@ void RedlichKisterVPSSTP::s_update_dlnActCoeff_dX_() const
         double sum2Mm1 = 0.0;
         double sumMm2 = 0.0;
         for (size_t m = 0; m < he_vec.size(); m++) {
-            double A_ge = he_vec[m] - T * se_vec[m];
+            double A_ge = (he_vec[m] - T * se_vec[m]) / (GasConstant * T);
             sum += A_ge * poly;
             sum2 += A_ge * (m + 1) * poly;
             poly *= deltaX;
@@ -361,9 +361,9 @@ void RedlichKisterVPSSTP::s_update_dlnActCoeff_dX_() const
                                            + XA * sumMm1 * (1.0 + 2.0 * XB - XA)
                                            - XA * XB * sumMm2 * (1.0 - XA + XB));
             } else if (iB == k) {
-                dlnActCoeff_dX_(k, iA) += ((1.0 - XB) * sum + (1.0 - XA) * XB * sumMm1
-                                           + XB * sumMm1 * (1.0 - 2.0 * XA + XB)
-                                           + XA * XB * sumMm2 * (1.0 - XA + XB));
+                dlnActCoeff_dX_(k, iA) += ((1.0 - XB) * sum + (1.0 - XB) * XA * sumMm1
+                                           - XB * sumMm1 * (1.0 + 2.0 * XA - XB)
+                                           - XA * XB * sumMm2 * (1.0 - XB + XA));
 
                 dlnActCoeff_dX_(k, iB) += (- XA * sum - (1.0 - XB) * XA * sumMm1
                                            + XA * sumMm1 * (XB - XA - (1.0 - XB))
@@ -392,11 +392,12 @@ void RedlichKisterVPSSTP::getdlnActCoeffds(const double dTds, const double* cons
 void RedlichKisterVPSSTP::getdlnActCoeffdlnN_diag(double* dlnActCoeffdlnN_diag) const
 {
     s_update_dlnActCoeff_dX_();
-    for (size_t j = 0; j < m_kk; j++) {
-        dlnActCoeffdlnN_diag[j] = dlnActCoeff_dX_(j, j);
-        for (size_t k = 0; k < m_kk; k++) {
-            dlnActCoeffdlnN_diag[k] -= dlnActCoeff_dX_(j, k) * moleFractions_[k];
+    for (size_t k = 0; k < m_kk; k++) {
+        double sum = 0.0;
+        for (size_t j = 0; j < m_kk; j++) {
+            sum += dlnActCoeff_dX_(k, j) * moleFractions_[j];
         }
+        dlnActCoeffdlnN_diag[k] = moleFractions_[k] * (dlnActCoeff_dX_(k, k) - sum);
     }
 }
 
@@ -411,10 +412,14 @@ void RedlichKisterVPSSTP::getdlnActCoeffdlnX_diag(double* dlnActCoeffdlnX_diag)
 void RedlichKisterVPSSTP::getdlnActCoeffdlnN(const size_t ld, double* dlnActCoeffdlnN)
 {
     s_update_dlnActCoeff_dX_();
-    double* data =  & dlnActCoeffdlnN_(0,0);
-    for (size_t k = 0; k < m_kk; k++) {
-        for (size_t m = 0; m < m_kk; m++) {
-            dlnActCoeffdlnN[ld * k + m] = data[m_kk * k + m];
+    for (size_t m = 0; m < m_kk; m++) {
+        double sum = 0.0;
+        for (size_t j = 0; j < m_kk; j++) {
+            sum += dlnActCoeff_dX_(m, j) * moleFractions_[j];
+        }
+        for (size_t k = 0; k < m_kk; k++) {
+            dlnActCoeffdlnN[ld * k + m] =
+                moleFractions_[k] * (dlnActCoeff_dX_(m, k) - sum);
         }
     }
 }
-- 
2.43.0


From deef8712fec0ce9f7b4d3590babe86ea9073a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:06 +0000
Subject: [PATCH 15/35] fix: MassFlowController deleted a time function it does
 not own

---
 src/zeroD/flowControllers.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/zeroD/flowControllers.cpp b/src/zeroD/flowControllers.cpp
index b58337c..16a01a7 100644
--- a/src/zeroD/flowControllers.cpp
+++ b/src/zeroD/flowControllers.cpp
@@ -12,9 +12,7 @@ namespace Cantera
 
 void MassFlowController::setMassFlowRate(double mdot)
 {
-    if (m_tfunc) {
-        delete m_tfunc;
-    }
+    m_tfunc = nullptr;
     m_coeff = mdot;
 }
 
-- 
2.43.0


From 696f9b21f94fa4def1cc199f056c4e96a75081c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:06 +0000
Subject: [PATCH 16/35] fix: ReactorNet::globalComponentIndex of an unknown
 component

---
 src/zeroD/ReactorNet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index 1fd9fa5..a826a99 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -504,7 +504,13 @@ size_t ReactorNet::globalComponentIndex(const string& component, size_t reactor)
         throw IndexError("ReactorNet::globalComponentIndex", "reactors", reactor,
                          m_reactors.size());
     }
-    return m_start[reactor] + m_reactors[reactor]->componentIndex(component);
+    size_t k = m_reactors[reactor]->componentIndex(component);
+    if (k == npos) {
+        throw CanteraError("ReactorNet::globalComponentIndex",
+                           "No component named '{}' in reactor '{}'.", component,
+                           m_reactors[reactor]->name());
+    }
+    return m_start[reactor] + k;
 }
 
 string ReactorNet::componentName(size_t i) const
-- 
2.43.0


From 682dc8419703a941ac11760d9a7b40e8fd26847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:06 +0000
Subject: [PATCH 17/35] fix: linear solver and preconditioner set after
 initialization were ignored

---
 src/zeroD/ReactorNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index a826a99..e873c18 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -152,13 +152,13 @@ void ReactorNet::reinitialize()
 void ReactorNet::setLinearSolverType(const string& linSolverType)
 {
     m_linearSolverType = linSolverType;
-    m_integrator_init = false;
+    m_init = false;
 }
 
 void ReactorNet::setPreconditioner(shared_ptr<SystemJacobian> preconditioner)
 {
     m_precon = preconditioner;
-    m_integrator_init = false;
+    m_init = false;
 }
 
 void ReactorNet::setMaxSteps(int nmax)
-- 
2.43.0


From c7d5b52feeee2a1a3c1e83af8ce0fb83a1c6cfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 18/35] fix: reactor networks did not notice reactors and
 surfaces added after initialization

---
 include/cantera/zeroD/Reactor.h    |  7 +++++++
 include/cantera/zeroD/ReactorNet.h |  7 +++++++
 src/zeroD/Reactor.cpp              | 23 +++++++++++++++++++++--
 src/zeroD/ReactorNet.cpp           |  1 +
 src/zeroD/ReactorSurface.cpp       |  4 ++++
 5 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/include/cantera/zeroD/Reactor.h b/include/cantera/zeroD/Reactor.h
index 5266687..5325e6c 100644
--- a/include/cantera/zeroD/Reactor.h
+++ b/include/cantera/zeroD/Reactor.h
@@ -89,6 +89,8 @@ public:
         return m_energy;
     }
 
+    void addSurface(ReactorSurface* surf) override;
+
     //! Number of equations (state variables) for this reactor
     size_t neq() {
         if (!m_nv) {
@@ -228,8 +230,13 @@ public:
     virtual bool preconditionerSupported() const {return false;};
 
 protected:
+    void setThermo(ThermoPhase& thermo) override;
     void setKinetics(Kinetics& kin) override;
 
+    //! Require initialization before further use, since the number of state
+    //! variables of this reactor changes.
+    void resetSize();
+
     //! Return the index in the solution vector for this reactor of the species
     //! named *nm*, in either the homogeneous phase or a surface phase, relative
     //! to the start of the species terms. Used to implement componentIndex for
diff --git a/include/cantera/zeroD/ReactorNet.h b/include/cantera/zeroD/ReactorNet.h
index fd8e574..42498c0 100644
--- a/include/cantera/zeroD/ReactorNet.h
+++ b/include/cantera/zeroD/ReactorNet.h
@@ -273,6 +273,13 @@ public:
         m_integrator_init = false;
     }
 
+    //! Called to trigger complete initialization before further integration, when
+    //! the number of state variables of the network changes.
+    void setNeedsInit() {
+        m_init = false;
+        m_nv = 0;
+    }
+
     //! Set the maximum number of internal integration steps the
     //! integrator will take before reaching the next output point
     //! @param nmax The maximum number of steps, setting this value
diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 7fac0ec..40a6e8e 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -37,6 +37,12 @@ void Reactor::setDerivativeSettings(AnyMap& settings)
     }
 }
 
+void Reactor::setThermo(ThermoPhase& thermo)
+{
+    ReactorBase::setThermo(thermo);
+    resetSize();
+}
+
 void Reactor::setKinetics(Kinetics& kin)
 {
     m_kin = &kin;
@@ -47,6 +53,20 @@ void Reactor::setKinetics(Kinetics& kin)
     }
 }
 
+void Reactor::addSurface(ReactorSurface* surf)
+{
+    ReactorBase::addSurface(surf);
+    resetSize();
+}
+
+void Reactor::resetSize()
+{
+    m_nv = 0;
+    if (m_net) {
+        m_net->setNeedsInit();
+    }
+}
+
 void Reactor::getState(double* y)
 {
     if (m_thermo == 0) {
@@ -549,10 +569,9 @@ void Reactor::setAdvanceLimits(const double *limits)
 bool Reactor::getAdvanceLimits(double *limits) const
 {
     bool has_limit = hasAdvanceLimits();
+    std::fill(limits, limits + m_nv, -1.0);
     if (has_limit) {
         std::copy(m_advancelimits.begin(), m_advancelimits.end(), limits);
-    } else {
-        std::fill(limits, limits + m_nv, -1.0);
     }
     return has_limit;
 }
diff --git a/src/zeroD/ReactorNet.cpp b/src/zeroD/ReactorNet.cpp
index e873c18..132c716 100644
--- a/src/zeroD/ReactorNet.cpp
+++ b/src/zeroD/ReactorNet.cpp
@@ -299,6 +299,7 @@ void ReactorNet::addReactor(Reactor& r)
     m_timeIsIndependent = r.timeIsIndependent();
     r.setNetwork(this);
     m_reactors.push_back(&r);
+    setNeedsInit();
     if (!m_integ) {
         m_integ.reset(newIntegrator(r.isOde() ? "CVODE" : "IDA"));
         // use backward differencing, with a full Jacobian computed
diff --git a/src/zeroD/ReactorSurface.cpp b/src/zeroD/ReactorSurface.cpp
index f811eb4..0fe0941 100644
--- a/src/zeroD/ReactorSurface.cpp
+++ b/src/zeroD/ReactorSurface.cpp
@@ -50,6 +50,10 @@ void ReactorSurface::setKinetics(Kinetics* kin) {
     }
     m_cov.resize(m_thermo->nSpecies());
     m_thermo->getCoverages(m_cov.data());
+    if (m_reactor) {
+        // the number of state variables of the reactor changes
+        m_reactor->addSurface(this);
+    }
 }
 
 void ReactorSurface::setReactor(ReactorBase* reactor)
-- 
2.43.0


From c12adedc29c1656134eab5d3ff5482e2a2bff50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 19/35] fix: reactions continued at their last rates after
 disabling chemistry of a reactor

---
 include/cantera/zeroD/Reactor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cantera/zeroD/Reactor.h b/include/cantera/zeroD/Reactor.h
index 5325e6c..327ca53 100644
--- a/include/cantera/zeroD/Reactor.h
+++ b/include/cantera/zeroD/Reactor.h
@@ -68,6 +68,9 @@ public:
 
     void setChemistry(bool cflag=true) override {
         m_chem = cflag;
+        if (!m_chem) {
+            m_wdot.assign(m_wdot.size(), 0.0);
+        }
     }
 
     //! Returns `true` if changes in the reactor composition due to chemical reactions
-- 
2.43.0


From 0e85f5f52cbb592d7178c60431d9a2867cedd3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:08 +0000
Subject: [PATCH 20/35] fix: FlowReactor used the surface mass flux of the last
 species only

---
 src/zeroD/FlowReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/FlowReactor.cpp b/src/zeroD/FlowReactor.cpp
index 5906bec..b028a63 100644
--- a/src/zeroD/FlowReactor.cpp
+++ b/src/zeroD/FlowReactor.cpp
@@ -251,7 +251,7 @@ void FlowReactor::evalDae(double time, double* y, double* ydot, double* residual
     const vector<double>& mw = m_thermo->molecularWeights();
     double sk_wk = 0;
     for (size_t i = 0; i < m_nsp; ++i) {
-        sk_wk = m_sdot[i] * mw[i];
+        sk_wk += m_sdot[i] * mw[i];
     }
     m_thermo->getPartialMolarEnthalpies(m_hk.data());
     // get net production
-- 
2.43.0


From 0cd7c3711591ee7e310d9d6498ebe9a9b8ff4b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:21 +0000
Subject: [PATCH 21/35] fix: surface species occupying several sites in mole
 reactors

---
 src/zeroD/MoleReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 4859a99..afe3386 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -70,7 +70,7 @@ void MoleReactor::evalSurfaces(double* LHS, double* RHS, double* sdot)
         S->syncState();
         kin->getNetProductionRates(&m_work[0]);
         for (size_t k = 0; k < nk; k++) {
-            RHS[loc + k] = m_work[k] * wallarea / surf->size(k);
+            RHS[loc + k] = m_work[k] * wallarea;
         }
         loc += nk;
 
-- 
2.43.0


From 4440bea42d6113a61b125c4db7d7069cb202d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:22 +0000
Subject: [PATCH 22/35] fix: mole reactors dropped species unknown to the
 downstream reactor from outlet flows

---
 src/zeroD/ConstPressureMoleReactor.cpp         | 3 ++-
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 3 ++-
 src/zeroD/IdealGasMoleReactor.cpp              | 3 ++-
 src/zeroD/MoleReactor.cpp                      | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 00c6261..06d689a 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -64,6 +64,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
     m_thermo->restoreState(m_state);
 
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -86,7 +87,7 @@ void ConstPressureMoleReactor::eval(double time, double* LHS, double* RHS)
         dHdt -= outlet->massFlowRate() * m_enthalpy;
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 757a6cb..727f99e 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -73,6 +73,7 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
 
     m_thermo->getPartialMolarEnthalpies(&m_hk[0]);
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -96,7 +97,7 @@ void IdealGasConstPressureMoleReactor::eval(double time, double* LHS, double* RH
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
     }
 
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 5586a7c..61fd016 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -104,6 +104,7 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
 
     m_thermo->getPartialMolarIntEnergies(&m_uk[0]);
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
 
     if (m_chem) {
         m_kin->getNetProductionRates(&m_wdot[0]); // "omega dot"
@@ -127,7 +128,7 @@ void IdealGasMoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         for (size_t n = 0; n < m_nsp; n++) {
             // flow of species into system and dilution by other species
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         double mdot = outlet->massFlowRate();
         mcvdTdt -= mdot * m_pressure * m_vol / m_mass; // flow work
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index afe3386..67f33e0 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -232,6 +232,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     evalSurfaces(LHS + m_nsp + m_sidx, RHS + m_nsp + m_sidx, m_sdot.data());
     // inverse molecular weights for conversion
     const vector<double>& imw = m_thermo->inverseMolecularWeights();
+    const double* Y = m_thermo->massFractions();
     // volume equation
     RHS[1] = m_vdot;
 
@@ -258,7 +259,7 @@ void MoleReactor::eval(double time, double* LHS, double* RHS)
     for (auto outlet : m_outlet) {
         // flow of species into system and dilution by other species
         for (size_t n = 0; n < m_nsp; n++) {
-            dndt[n] -= outlet->outletSpeciesMassFlowRate(n) * imw[n];
+            dndt[n] -= outlet->massFlowRate() * Y[n] * imw[n];
         }
         // energy update based on mass flow
         double mdot = outlet->massFlowRate();
-- 
2.43.0


From 53f729ba77297be3f490237b21024890bcf4987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:22 +0000
Subject: [PATCH 23/35] fix: gas constant missing from initial derivatives of
 FlowReactor

---
 src/zeroD/FlowReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zeroD/FlowReactor.cpp b/src/zeroD/FlowReactor.cpp
index b028a63..8376abf 100644
--- a/src/zeroD/FlowReactor.cpp
+++ b/src/zeroD/FlowReactor.cpp
@@ -84,7 +84,7 @@ void FlowReactor::getStateDae(double* y, double* ydot)
     a(0, 2) = 1;
     a(0, 3) = - m_rho * GasConstant / m_thermo->meanMolecularWeight();
     for (size_t i = 0; i < m_nsp; ++i) {
-        a(0, m_offset_Y + i) = - m_rho * m_T / mw[i];
+        a(0, m_offset_Y + i) = - m_rho * GasConstant * m_T / mw[i];
     }
 
     // initialize the second row from mass conservation equation (Kee 16.48)
-- 
2.43.0


From a61ade1f32ca847ffabd80aa5a6299e7e2265a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 24/35] fix: isothermal reactors took the temperature of
 another reactor sharing their phase

---
 src/zeroD/ConstPressureMoleReactor.cpp | 2 +-
 src/zeroD/ConstPressureReactor.cpp     | 2 +-
 src/zeroD/MoleReactor.cpp              | 2 +-
 src/zeroD/Reactor.cpp                  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zeroD/ConstPressureMoleReactor.cpp b/src/zeroD/ConstPressureMoleReactor.cpp
index 06d689a..e5bdf8c 100644
--- a/src/zeroD/ConstPressureMoleReactor.cpp
+++ b/src/zeroD/ConstPressureMoleReactor.cpp
@@ -48,7 +48,7 @@ void ConstPressureMoleReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[0] / m_mass, m_pressure);
     } else {
-        m_thermo->setPressure(m_pressure);
+        m_thermo->setState_TP(temperature(), m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
     updateConnected(false);
diff --git a/src/zeroD/ConstPressureReactor.cpp b/src/zeroD/ConstPressureReactor.cpp
index c584688..6e4301a 100644
--- a/src/zeroD/ConstPressureReactor.cpp
+++ b/src/zeroD/ConstPressureReactor.cpp
@@ -52,7 +52,7 @@ void ConstPressureReactor::updateState(double* y)
     if (m_energy) {
         m_thermo->setState_HP(y[1]/m_mass, m_pressure);
     } else {
-        m_thermo->setPressure(m_pressure);
+        m_thermo->setState_TP(temperature(), m_pressure);
     }
     m_vol = m_mass / m_thermo->density();
     updateConnected(false);
diff --git a/src/zeroD/MoleReactor.cpp b/src/zeroD/MoleReactor.cpp
index 67f33e0..3c27ac2 100644
--- a/src/zeroD/MoleReactor.cpp
+++ b/src/zeroD/MoleReactor.cpp
@@ -216,7 +216,7 @@ void MoleReactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
-        m_thermo->setDensity(m_mass / m_vol);
+        m_thermo->setState_TD(temperature(), m_mass / m_vol);
     }
     updateConnected(true);
     updateSurfaceState(y + m_nsp + m_sidx);
diff --git a/src/zeroD/Reactor.cpp b/src/zeroD/Reactor.cpp
index 40a6e8e..3283821 100644
--- a/src/zeroD/Reactor.cpp
+++ b/src/zeroD/Reactor.cpp
@@ -186,7 +186,7 @@ void Reactor::updateState(double* y)
         }
         m_thermo->setState_TD(TT.second, m_mass / m_vol);
     } else {
-        m_thermo->setDensity(m_mass/m_vol);
+        m_thermo->setState_TD(temperature(), m_mass / m_vol);
     }
 
     updateConnected(true);
-- 
2.43.0


From 619eb526de01ed8b6216f0ce50fde740f4ac0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:23 +0000
Subject: [PATCH 25/35] fix: reactor Jacobians evaluated for another reactor
 sharing the phase

---
 src/zeroD/IdealGasConstPressureMoleReactor.cpp | 1 +
 src/zeroD/IdealGasMoleReactor.cpp              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/zeroD/IdealGasConstPressureMoleReactor.cpp b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
index 727f99e..6d3456a 100644
--- a/src/zeroD/IdealGasConstPressureMoleReactor.cpp
+++ b/src/zeroD/IdealGasConstPressureMoleReactor.cpp
@@ -126,6 +126,7 @@ Eigen::SparseMatrix<double> IdealGasConstPressureMoleReactor::jacobian()
         throw CanteraError("IdealGasConstPressureMoleReactor::jacobian",
                            "Reactor must be initialized first.");
     }
+    m_thermo->restoreState(m_state);
     // clear former jacobian elements
     m_jac_trips.clear();
     // dnk_dnj represents d(dot(n_k)) / d (n_j) but is first assigned as
diff --git a/src/zeroD/IdealGasMoleReactor.cpp b/src/zeroD/IdealGasMoleReactor.cpp
index 61fd016..0377e9c 100644
--- a/src/zeroD/IdealGasMoleReactor.cpp
+++ b/src/zeroD/IdealGasMoleReactor.cpp
@@ -160,6 +160,7 @@ Eigen::SparseMatrix<double> IdealGasMoleReactor::jacobian()
         throw CanteraError("IdealGasMoleReactor::jacobian",
                            "Reactor must be initialized first.");
     }
+    m_thermo->restoreState(m_state);
     // clear former jacobian elements
     m_jac_trips.clear();
     // dnk_dnj represents d(dot(n_k)) / d (n_j) but is first assigned as
-- 
2.43.0


From 582971aaa14c564002a2bbbff50b228cec75fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:10 +0000
Subject: [PATCH 26/35] fix: LatticePhase partial molar enthalpies ignored the
 pressure

---
 src/thermo/LatticePhase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/thermo/LatticePhase.cpp b/src/thermo/LatticePhase.cpp
index 4061291..65cf48c 100644
--- a/src/thermo/LatticePhase.cpp
+++ b/src/thermo/LatticePhase.cpp
@@ -108,6 +108,10 @@ void LatticePhase::getPartialMolarEnthalpies(double* hbar) const
 {
     const vector<double>& _h = enthalpy_RT_ref();
     scale(_h.begin(), _h.end(), hbar, RT());
+    double delta_p = m_Pcurrent - m_Pref;
+    for (size_t k = 0; k < m_kk; k++) {
+        hbar[k] += delta_p * m_speciesMolarVolume[k];
+    }
 }
 
 void LatticePhase::getPartialMolarEntropies(double* sbar) const
-- 
2.43.0


From 590678ca260596cf865e7920417d4ead8fed76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:10 +0000
Subject: [PATCH 27/35] fix: BinarySolutionTabulatedThermo read before the
 start of its table at the first tabulated mole fraction

---
 src/thermo/BinarySolutionTabulatedThermo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/BinarySolutionTabulatedThermo.cpp b/src/thermo/BinarySolutionTabulatedThermo.cpp
index 31b5432..9542281 100644
--- a/src/thermo/BinarySolutionTabulatedThermo.cpp
+++ b/src/thermo/BinarySolutionTabulatedThermo.cpp
@@ -165,7 +165,7 @@ double BinarySolutionTabulatedThermo::interpolate(const double x,
         c = inputData.back();
         return c;
     }
-    if (x < m_molefrac_tab.front()) {
+    if (x <= m_molefrac_tab.front()) {
         c = inputData.front();
         return c;
     }
-- 
2.43.0


From 807755c22862d55dab8532d87b96e3c5f8dcf1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:57 +0000
Subject: [PATCH 28/35] fix: PlogRate kept the interpolation range of its
 previous rates

---
 src/kinetics/PlogRate.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kinetics/PlogRate.cpp b/src/kinetics/PlogRate.cpp
index d8cd0d9..9ca0d98 100644
--- a/src/kinetics/PlogRate.cpp
+++ b/src/kinetics/PlogRate.cpp
@@ -120,6 +120,11 @@ void PlogRate::setRates(const std::multimap<double, ArrheniusRate>& rates)
     // Duplicate the first and last groups to handle P < P_0 and P > P_N
     pressures_.insert({-1000.0, pressures_.begin()->second});
     pressures_.insert({1000.0, pressures_.rbegin()->second});
+
+    // Discard the interpolation range found for the previous rates
+    logP_ = -1000;
+    logP1_ = 1000;
+    logP2_ = -1000;
 }
 
 void PlogRate::validate(const string& equation, const Kinetics& kin)
-- 
2.43.0


From e6ce7c6ad2b719236cdcf84c6234c3b25d990dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:57 +0000
Subject: [PATCH 29/35] fix: ChebyshevRate kept pressure factors of its
 previous limits and coefficients

---
 src/kinetics/ChebyshevRate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kinetics/ChebyshevRate.cpp b/src/kinetics/ChebyshevRate.cpp
index 3fcd72c..dbaa306 100644
--- a/src/kinetics/ChebyshevRate.cpp
+++ b/src/kinetics/ChebyshevRate.cpp
@@ -109,6 +109,7 @@ void ChebyshevRate::setLimits(double Tmin, double Tmax, double Pmin, double Pmax
     Tmax_ = Tmax;
     Pmin_ = Pmin;
     Pmax_ = Pmax;
+    m_log10P = NAN; // discard the pressure factors evaluated for the previous limits
 }
 
 void ChebyshevRate::setData(const Array2D& coeffs)
@@ -121,6 +122,7 @@ void ChebyshevRate::setData(const Array2D& coeffs)
         m_coeffs = Array2D(1, 1, NAN);
     }
     dotProd_.resize(m_coeffs.nRows());
+    m_log10P = NAN; // discard the pressure factors evaluated for the previous data
 }
 
 void ChebyshevRate::getParameters(AnyMap& rateNode) const
-- 
2.43.0


From 94292593fb3fb0bfe19de9df0ebc8c4bbff4c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:57 +0000
Subject: [PATCH 30/35] fix: coverage dependence added to an interface rate had
 no entry for its form

---
 src/kinetics/InterfaceRate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 46f0f80..4478f02 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -214,6 +214,7 @@ void InterfaceRateBase::addCoverageDependence(const string& sp, double a, double
         m_ac.push_back(a);
         m_ec.push_back(e);
         m_mc.push_back(m);
+        m_lindep.resize(m_cov.size(), false);
         m_indices.clear();
     } else {
         throw CanteraError("InterfaceRateBase::addCoverageDependence",
-- 
2.43.0


From b1dbd763faeb39aec1f184557ea68f4bcc9e2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:20 +0000
Subject: [PATCH 31/35] fix: an interface rate whose coverage dependencies were
 removed kept their species indices

---
 src/kinetics/InterfaceRate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kinetics/InterfaceRate.cpp b/src/kinetics/InterfaceRate.cpp
index 4478f02..98e4163 100644
--- a/src/kinetics/InterfaceRate.cpp
+++ b/src/kinetics/InterfaceRate.cpp
@@ -151,6 +151,7 @@ void InterfaceRateBase::setCoverageDependencies(const AnyMap& dependencies,
     m_ec.clear();
     m_mc.clear();
     m_lindep.clear();
+    m_indices.clear();
     for (const auto& [species, coeffs] : dependencies) {
         double a, m;
         vector<double> E(5, 0.0);
-- 
2.43.0


From e9e02c5ab4797b16f3d00c632c7899966a67f926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:58 +0000
Subject: [PATCH 32/35] fix: missing factor separation in Margules
 dlnActCoeffdlnX_diag (2*g1*-2*g0 for 2*g1-2*g0)

---
 src/thermo/MargulesVPSSTP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/MargulesVPSSTP.cpp b/src/thermo/MargulesVPSSTP.cpp
index c9bfa73..8bd9caf 100644
--- a/src/thermo/MargulesVPSSTP.cpp
+++ b/src/thermo/MargulesVPSSTP.cpp
@@ -408,8 +408,8 @@ void MargulesVPSSTP::s_update_dlnActCoeff_dlnX_diag() const
         double g0 = (m_HE_b_ij[i] - T * m_SE_b_ij[i]) / RT();
         double g1 = (m_HE_c_ij[i] - T * m_SE_c_ij[i]) / RT();
 
-        dlnActCoeffdlnX_diag_[iA] += XA*XB*(2*g1*-2*g0-6*g1*XB);
-        dlnActCoeffdlnX_diag_[iB] += XA*XB*(2*g1*-2*g0-6*g1*XB);
+        dlnActCoeffdlnX_diag_[iA] += XA*XB*(2*g1-2*g0-6*g1*XB);
+        dlnActCoeffdlnX_diag_[iB] += XA*XB*(2*g1-2*g0-6*g1*XB);
     }
 }
 
-- 
2.43.0


From 67d05a9af7c27545ad18287ad6a931043fb0d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:48 +0000
Subject: [PATCH 33/35] fix: IdealSolnGasVPSS::cv_mole subtracted the gas
 constant from the heat capacity of a condensed solution

---
 src/thermo/IdealSolnGasVPSS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/IdealSolnGasVPSS.cpp b/src/thermo/IdealSolnGasVPSS.cpp
index c8defce..9dc8b34 100644
--- a/src/thermo/IdealSolnGasVPSS.cpp
+++ b/src/thermo/IdealSolnGasVPSS.cpp
@@ -61,7 +61,7 @@ double IdealSolnGasVPSS::cp_mole() const
 
 double IdealSolnGasVPSS::cv_mole() const
 {
-    return cp_mole() - GasConstant;
+    return cp_mole();
 }
 
 void IdealSolnGasVPSS::setPressure(double p)
-- 
2.43.0


From 6d5e09416bfec4607f9133ff1d93b5b42d0320a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:21 +0000
Subject: [PATCH 34/35] fix: Margules getdlnActCoeffds added the temperature
 term once per species pair

---
 src/thermo/MargulesVPSSTP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thermo/MargulesVPSSTP.cpp b/src/thermo/MargulesVPSSTP.cpp
index 8bd9caf..6b465d8 100644
--- a/src/thermo/MargulesVPSSTP.cpp
+++ b/src/thermo/MargulesVPSSTP.cpp
@@ -299,7 +299,7 @@ void MargulesVPSSTP::getdlnActCoeffds(const double dTds, const double* const dXd
     double T = temperature();
     s_update_dlnActCoeff_dT();
     for (size_t iK = 0; iK < m_kk; iK++) {
-        dlnActCoeffds[iK] = 0.0;
+        dlnActCoeffds[iK] = dlnActCoeffdT_Scaled_[iK]*dTds;
     }
 
     for (size_t i = 0; i < numBinaryInteractions_; i++) {
@@ -315,7 +315,7 @@ void MargulesVPSSTP::getdlnActCoeffds(const double dTds, const double* const dXd
         const double g2XAdXB = 2*g1*XA*dXB;
         const double all = (-XB * dXA - XA *dXB) * g02g1XB - XB *g2XAdXB;
         for (size_t iK = 0; iK < m_kk; iK++) {
-            dlnActCoeffds[iK] += all + dlnActCoeffdT_Scaled_[iK]*dTds;
+            dlnActCoeffds[iK] += all;
         }
         dlnActCoeffds[iA] += dXB * g02g1XB;
         dlnActCoeffds[iB] += dXA * g02g1XB + g2XAdXB;
-- 
2.43.0


From cae7d0b92db82d93deecae7297ecf88818b52338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:45 +0000
Subject: [PATCH 35/35] fix: RedlichKisterVPSSTP sized its species-by-species
 derivative matrix by the number of polynomial coefficients

---
 src/thermo/RedlichKisterVPSSTP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermo/RedlichKisterVPSSTP.cpp b/src/thermo/RedlichKisterVPSSTP.cpp
index df77db9..43aa309 100644
--- a/src/thermo/RedlichKisterVPSSTP.cpp
+++ b/src/thermo/RedlichKisterVPSSTP.cpp
@@ -155,6 +155,7 @@ void RedlichKisterVPSSTP::getParameters(AnyMap& phaseNode) const
 void RedlichKisterVPSSTP::initLengths()
 {
     dlnActCoeffdlnN_.resize(m_kk, m_kk);
+    dlnActCoeff_dX_.resize(m_kk, m_kk, 0.0);
 }
 
 void RedlichKisterVPSSTP::s_update_lnActCoeff() const
@@ -453,7 +454,6 @@ void RedlichKisterVPSSTP::addBinaryInteraction(
     size_t N = max(n_enthalpy, n_entropy);
     m_HE_m_ij.back().resize(N, 0.0);
     m_SE_m_ij.back().resize(N, 0.0);
-    dlnActCoeff_dX_.resize(N, N, 0.0);
 }
 
 }
-- 
2.43.0

