From 57a87d64312f0ce46bea9bf8f197e84890f68603 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 01/60] hook: let verification builds (SLIDE_VERIF) select
 thermal model and data storage levels

---
 src/settings/settings.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/settings/settings.hpp b/src/settings/settings.hpp
index edb4e0b..973f0a8 100644
--- a/src/settings/settings.hpp
+++ b/src/settings/settings.hpp
@@ -48,20 +48,31 @@ constexpr bool overwrite_data = true; //!< if this is false then folder overwrit
 //!< Data storage  //!< from slidepack
 constexpr int DATASTORE_NHIST = 100; //!< length of the arrays with the histograms (if 1)
 
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_DATASTORE_CELL) //!< verification builds may select another storage level.
+constexpr auto DATASTORE_CELL = cellDataStorageLevel::SLIDE_VERIF_DATASTORE_CELL;
+#else
 constexpr auto DATASTORE_CELL = cellDataStorageLevel::storeTimeData; //!< if 0, no cell-level data is stored
                                                                      //!< if 1, statistics about I, V and T are stored, as well as overall utilisation (throughput)
                                                                      //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
+#endif
 
-
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_DATASTORE_MODULE) //!< verification builds may select another storage level.
+constexpr auto DATASTORE_MODULE = moduleDataStorageLevel::SLIDE_VERIF_DATASTORE_MODULE;
+#else
 constexpr auto DATASTORE_MODULE = moduleDataStorageLevel::noStorage; //!< See moduleDataStorageLevel for different options.
+#endif
 
 //!< constexpr int DATASTORE_MODULE = 0; //!< if 0, no module-level data is stored
 //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 //!< constexpr int DATASTORE_BATT = 0; //!< if 0, no module-level data is stored
 //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_DATASTORE_COOL) //!< verification builds may select another storage level.
+constexpr int DATASTORE_COOL = SLIDE_VERIF_DATASTORE_COOL;
+#else
 constexpr int DATASTORE_COOL = 0; //!< if 0, no data is stored
                                   //!< if 1, statistics about the cooling system is stored
                                   //!< if 2, operating power etc is stored every time step
+#endif
 
 constexpr int MODULE_NSUs_MAX = 100; //!< #TODO eliminate but recursive static does not solve the situation since it is recursive.
                                      //!< maximum number of cells in a base module
@@ -89,12 +100,16 @@ constexpr size_t CELL_NSTATE_MAX{ 30 }; //!< maximum number of states of all typ
                          //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 
 //!< temperature
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_T_MODEL) //!< verification builds may select another thermal model.
+constexpr int T_MODEL{ SLIDE_VERIF_T_MODEL };
+#else
 constexpr int T_MODEL{ 0 }; //!< which thermal model to use
                             //!< 	0 no thermal model
                             //!< 	1 individual cell bulk thermal model
                             //!< 	2 coupled cell thermal model with cooling from modules
                             //!< if 1, statistics about the cooling system is stored
                             //!< if 2, operating power etc is stored every time step
+#endif
 
 //!< Choose how much messages should be printed to the terminal
 constexpr int verbose{ printLevel::printCrit };
-- 
2.43.0


From b2edf09c4b646ef3d3f217b00bceed112c3ab773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 02/60] fix: Module::setStates restores every child, not the
 failing one repeatedly

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 511d075..05bb79d 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -234,7 +234,7 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
                   << ". Restoring the old states, status: " << getStatusMessage(status) << '\n';
 
       for (size_t j = 0; j <= i; j++)
-        SUs[i]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+        SUs[j]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
 
       return status;
     }
-- 
2.43.0


From 367508edf23b7b8fc932f59bc6b2fcb49cc1753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 03/60] fix: a refused module current restores the current of
 every cell

---
 src/modules/Module.cpp   | 22 ++++++++++++++++++++++
 src/modules/Module.hpp   |  3 +++
 src/modules/Module_p.cpp | 15 +++++++++++----
 src/modules/Module_s.cpp |  9 ++++-----
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 05bb79d..3f051fd 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -110,6 +110,28 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
 }
 
 
+void Module::getCellCurrents(std::vector<double> &Icells) const
+{
+  for (const auto &SU : SUs)
+    if (auto *module = dynamic_cast<const Module *>(SU.get()))
+      module->getCellCurrents(Icells);
+    else
+      Icells.push_back(SU->I());
+}
+
+void Module::restoreCellCurrents(std::span<const double> &Icells)
+{
+  Vmodule_valid = false; //!< the stored voltage is no longer valid
+
+  for (auto &SU : SUs)
+    if (auto *module = dynamic_cast<Module *>(SU.get()))
+      module->restoreCellCurrents(Icells);
+    else {
+      SU->setCurrent(Icells.front(), false, false);
+      Icells = Icells.subspan(1);
+    }
+}
+
 Status Module::checkVoltage(double &v, bool print) noexcept
 {
   /*
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 731d1f7..4b8a084 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -69,6 +69,9 @@ protected:
     return Ncells = transform_sum(SUs, free::get_Ncells<SU_t>);
   }
 
+  void getCellCurrents(std::vector<double> &Icells) const;      //!< append the current of every cell below this module
+  void restoreCellCurrents(std::span<const double> &Icells); //!< opposite of getCellCurrents, does not check the voltages
+
   double thermalModel_cell();
   double thermalModel_coupled(int Nneighbours, double Tneighbours[], double Kneighbours[], double Aneighb[], double tim);
 
diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 612d1bf..95f2005 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -208,14 +208,17 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   auto StatusNow = Status::Success;
 
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va;
+  std::array<double, settings::MODULE_NSUs_MAX> Ia, Va;
 
   double Itot{ 0 };
 
   //!< get the old currents so we can revert if needed
+  std::vector<double> Iolds;
+  getCellCurrents(Iolds);
+
   for (size_t i{}; i < SUs.size(); i++) {
-    Ia[i] = Iolds[i] = SUs[i]->I();
-    Itot += Iolds[i];
+    Ia[i] = SUs[i]->I();
+    Itot += Ia[i];
   }
 
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
@@ -223,7 +226,11 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
     StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) return StatusNow;
+    if (!isStatusOK(StatusNow)) {
+      std::span<const double> spn_old{ Iolds };
+      restoreCellCurrents(spn_old);
+      return StatusNow;
+    }
   }
 
   getVall(Va, print);
diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 1d8e466..bc0204b 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -92,10 +92,10 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
   //!< Set the current, if checkVi this also gets the cell voltages
   Vmodule_valid = false; //!< we are changing the current, so the stored voltage is no longer valid
 
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds;
+  std::vector<double> Iolds;
+  getCellCurrents(Iolds);
 
   for (int i = 0; i < getNSUs(); i++) {
-    Iolds[i] = SUs[i]->I();
     const auto status = SUs[i]->setCurrent(Inew, checkV, print);
 
     if (isStatusBad(status)) {
@@ -105,9 +105,8 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << Inew << ". Restoring the old currents and throwing on error "
                   << getStatusMessage(status) << '\n';
 
-
-      for (int j{ i }; j > 0; j--)
-        SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
+      std::span<const double> spn_old{ Iolds };
+      restoreCellCurrents(spn_old);
 
       return status; // #TODO setCurrent here may be costly.
     }
-- 
2.43.0


From a97c4d1f8bf974d8e40840861457165c2bafb03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 04/60] fix: Cell_SPM::validStates reports negative lost
 lithium like every other invalid state

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ce31e03..6e6285c 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -434,7 +434,7 @@ bool Cell_SPM::validStates(bool print)
   if (st.LLI() < 0) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
-    throw 15;
+    range = false;
   }
 
   const double app = 3 * st.ep() / geo.Rp;
-- 
2.43.0


From b8a5524d19b53c39925166e408f69028be5b159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 05/60] fix: Cell_SPM does not report the voltage of an
 outdated temperature or degradation state

---
 src/cells/Cell_SPM/Cell_SPM.cpp        | 2 ++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 6e6285c..5d70bd3 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -554,6 +554,8 @@ void Cell_SPM::setT(double Ti)
 
   st.T() = Ti; //!< #TODO if we need to check if we are in limits.  if T is in limits.
 
+  Vcell_valid = false; //!< the voltage depends on the temperature, so the stored voltage is no longer valid
+
   //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
   sparam.s_dai_update = false;
   sparam.s_lares_update = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6239d8b..66190d7 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -358,6 +358,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     //!< degradation accumulation
     for (size_t i = 0; i < st.size(); i++)
       st[i] += d_st[i] * dt * nstep;
+
+    Vcell_valid = false; //!< degradation changed the states, so the stored voltage is no longer valid
   }
 }
 
-- 
2.43.0


From f4688fc6b5524c9329d79b11375ba7b2d995e5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 06/60] fix: Module_s does not report an outdated voltage after
 one of its SUs changed

---
 src/modules/Module_s.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index bc0204b..13b2dc5 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -55,11 +55,8 @@ double Module_s::V()
   //!< sum of the voltage of all cells
   //!< bool verb = print && (settings::printBool::printCrit); //!< print if the (global) verbose-setting is above the threshold
 
-  //!< if the stored value is up to date, return that one
-  if (Vmodule_valid)
-    return Vmodule;
-
-  //!< else calculate the voltage
+  //!< always sum the present voltages: the connected SUs can change without this module knowing
+  //!< (e.g. a cell inside gets a new current, state or temperature); cells store their own voltage so this is cheap
   Vmodule = 0;
   for (size_t i = 0; i < getNSUs(); i++) {
     const auto v_i = SUs[i]->V();
-- 
2.43.0


From af36592d471eafb0ef420caec7d45d73efb0946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 07/60] fix: the SUs inside a copied module or battery belong
 to the copy

---
 src/modules/Module.hpp   | 5 +++++
 src/modules/Module_p.hpp | 7 ++++++-
 src/modules/Module_s.hpp | 7 ++++++-
 src/system/Battery.hpp   | 7 ++++++-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 4b8a084..7e69094 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -131,6 +131,11 @@ public:
   }
 
   virtual Module *copy() override = 0;
+  void adoptSUs() //!< make this module the parent of all its SUs, needed after copying since the copied SUs still refer to the original module
+  {
+    for (auto &SU : SUs)
+      SU->setParent(this);
+  }
 
   void storeData() override
   {
diff --git a/src/modules/Module_p.hpp b/src/modules/Module_p.hpp
index 00a187b..c763b0e 100644
--- a/src/modules/Module_p.hpp
+++ b/src/modules/Module_p.hpp
@@ -44,6 +44,11 @@ public:
 
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_p *copy() override { return new Module_p(*this); }
+  Module_p *copy() override
+  {
+    auto *m = new Module_p(*this);
+    m->adoptSUs();
+    return m;
+  }
 };
 } // namespace slide
\ No newline at end of file
diff --git a/src/modules/Module_s.hpp b/src/modules/Module_s.hpp
index 2f481c2..74828db 100644
--- a/src/modules/Module_s.hpp
+++ b/src/modules/Module_s.hpp
@@ -45,6 +45,11 @@ public:
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override; //!< set a module current
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_s *copy() override { return new Module_s(*this); }
+  Module_s *copy() override
+  {
+    auto *m = new Module_s(*this);
+    m->adoptSUs();
+    return m;
+  }
 };
 } // namespace slide
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 12673f4..ca183b6 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -92,7 +92,12 @@ public:
   void storeData() override;
   void writeData(const std::string &prefix) override;
 
-  Battery *copy() override { return new Battery(*this); }
+  Battery *copy() override
+  {
+    auto *b = new Battery(*this);
+    if (b->cells) b->cells->setParent(b); //!< else the copied module still refers to the original battery
+    return b;
+  }
 };
 
 } // namespace slide
-- 
2.43.0


From 0fead5410fc42e9a4ed35662fb28165ba268dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 08/60] fix: blocking degradation of a pack reaches its cells
 at every level

---
 src/StorageUnit.hpp    | 2 +-
 src/modules/Module.hpp | 2 +-
 src/system/Battery.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 2bd8e99..0e0f373 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -61,7 +61,7 @@ public:
 
   virtual void getStates(getStates_t s) = 0;       //!< returns one long array with the states
   virtual viewStates_t viewStates() { return {}; } //!< Only for cells to see individual states.
-  void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
+  virtual void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
   virtual void setParent(StorageUnit *p) { parent = p; }                             //!< set the parent
   virtual Status setCurrent(double Inew, bool checkV = true, bool print = true) = 0; //
   virtual Status setVoltage(double Vnew, bool checkI = true, bool print = true)
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 7e69094..b7bb799 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -178,7 +178,7 @@ public:
 #endif
   }
 
-  void setBlockDegAndTherm(bool block)
+  void setBlockDegAndTherm(bool block) override
   {
     for (auto &SU : SUs)
       SU->setBlockDegAndTherm(block);
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index ca183b6..4a18bcc 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -54,7 +54,7 @@ public:
   Module *getCells() { return cells.get(); }
   //!< int getNstates() { return cells->getNstates() + 1; } //!< +1 for the temperature of this battery
   void getStates(getStates_t &s) override; //!< returns one long array with the states
-  void setBlockDegAndTherm(bool block);
+  void setBlockDegAndTherm(bool block) override;
 
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override
   {
-- 
2.43.0


From 16497e8c758f8eff9bd215bcd4b1384d4c45fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 09/60] fix: getVhigh and getVlow of a module return the
 voltage of a cell

---
 src/modules/Module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 3f051fd..04b6fbb 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -163,7 +163,7 @@ double Module::getVhigh()
 {
   //!< return the voltage of the cell with the highest voltage
   //!< 	note CELL not child SU
-  double Vhigh = Vmin(); // #TODO
+  double Vhigh = SUs.empty() ? 0 : SUs[0]->getVhigh(); //!< not Vmin(), which is the limit of the module and not of one cell
   for (const auto &SU : SUs)
     Vhigh = std::max(Vhigh, SU->getVhigh()); //!< will be called recursively to the cell levels
 
@@ -173,7 +173,7 @@ double Module::getVhigh()
 double Module::getVlow()
 {
   //!< return the voltage of the cell with the lowest voltage note CELL not child SU
-  double Vlow = Vmax(); // #TODO
+  double Vlow = SUs.empty() ? 0 : SUs[0]->getVlow(); //!< not Vmax(), which is the limit of the module and not of one cell
   for (const auto &SU : SUs)
     Vlow = std::min(Vlow, SU->getVlow()); //!< will be called recursively to the cell levels
 
-- 
2.43.0


From 73b8b663a7dbab2ca5056ad208cfe03e5995121b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 10/60] fix: Module::setSUs prints the parent of the SU, not
 the (possibly missing) parent of the module

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 04b6fbb..27c0ab0 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -84,7 +84,7 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
     {
       if (verb)
         std::cerr << "ERROR in Module::setCells, SU " << i << ", already has a parent "
-                  << "with full ID: " << parent->getFullID() << ". Throwing 10.\n";
+                  << "with full ID: " << p->getFullID() << ". Throwing 10.\n";
       std::cout << "Throwed in File: " << __FILE__ << ", line: " << __LINE__ << '\n';
       throw 10;
     }
-- 
2.43.0


From 6b75de1157f1e1e486219b0d4a589282d109c6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:55 +0000
Subject: [PATCH 11/60] fix: Battery::setStates consumes its temperature and
 keeps it when the states are refused

---
 src/system/Battery.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 0581721..25aa772 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -105,8 +105,14 @@ void Battery::setBlockDegAndTherm(bool block)
 
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
-  auto status = cells->setStates(s, checkStates, print);
-  setT(s.back()); //!< #TODO probably here we need to check?
+  const auto status = cells->setStates(s, checkStates, print);
+
+  if (isStatusBad(status)) //!< the old states were restored
+    return status;
+
+  setT(s[0]); //!< #TODO probably here we need to check?
+  s = s.last(s.size() - 1);
+
   return status;
 }
 
-- 
2.43.0


From 644872a26b6902ce80fc844ab5d64b22a52e7c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 12/60] fix: interpolation in a (nearly) evenly spaced table
 stays inside the table and in the right interval

---
 src/types/XYdata.hpp          | 2 ++
 src/utility/interpolation.hpp | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types/XYdata.hpp b/src/types/XYdata.hpp
index 0f535ef..53d381e 100644
--- a/src/types/XYdata.hpp
+++ b/src/types/XYdata.hpp
@@ -25,6 +25,8 @@ namespace slide {
 template <typename Tx>
 bool check_is_fixed(Tx &xdat) //!< Checks if steps are fixed length. #TODO should not be here.
 {
+  if (xdat.size() < 2) return false; //!< there are no steps
+
   const double dt = xdat[1] - xdat[0];
   const double tol = 0.01 * dt; //!< Tolerance.
 
diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 955c146..3022134 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -61,6 +61,8 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
     yy = ydat[0]; //!< if x is below the minimum value, return the y value of the first data point
   else if (x >= xdat[nin - 1])
     yy = ydat[nin - 1]; //!< if x is above the maximum value, return the y value of the last data point
+  else if (std::isnan(x))
+    yy = x; //!< not a number is not in any interval of the table
   else {
     //!< scan the data points
     int i_low{ 0 };
@@ -68,7 +70,12 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
 
     if (is_fixed) {
       double dt = xdat[1] - xdat[0];
-      i_low = static_cast<int>((x - xdat[0]) / dt) + 1;
+      i_low = std::min(static_cast<int>((x - xdat[0]) / dt) + 1, nin - 1);
+      //!< the steps are only approximately equal, so go to the interval which contains x
+      while (i_low > 1 && x < xdat[i_low - 1])
+        i_low--;
+      while (i_low < nin - 1 && x > xdat[i_low])
+        i_low++;
     } else {
       //!< binary search algorithm:
       //!< i_low will be the first index which compares greater than x;
-- 
2.43.0


From 2e2fc78e567f154d49216b98f6e723418f5ac63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 13/60] fix: histogram counts far-away samples in the last bin
 and reports all its edges

---
 src/types/Histogram.hpp | 8 ++++----
 src/utility/util.hpp    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types/Histogram.hpp b/src/types/Histogram.hpp
index 3db1312..340ece0 100644
--- a/src/types/Histogram.hpp
+++ b/src/types/Histogram.hpp
@@ -49,11 +49,11 @@ public:
      * bins[0] is number of elements less than x_min
      * bins[end] is number of elements more than x_max
      * */
-    auto i = static_cast<int>(1 + (x - x_min) / dx);
+    if (bins.empty()) return; //!< there is nothing to count in
 
-    const auto ssize = static_cast<int>(bins.size());
-    i = std::max(0, std::min(i, ssize - 1)); // #TODO what happens if container is empty?
-    bins[i]++;
+    //!< limit the value before converting it, it may be too large for an integer
+    const double pos = 1 + (x - x_min) / dx, last = static_cast<double>(bins.size() - 1);
+    bins[static_cast<size_t>(std::max(0.0, std::min(pos, last)))]++;
   }
 
   std::span<const size_t> viewBinValues() const noexcept { return bins; }
diff --git a/src/utility/util.hpp b/src/utility/util.hpp
index 4d54d41..1b600f1 100644
--- a/src/utility/util.hpp
+++ b/src/utility/util.hpp
@@ -89,7 +89,7 @@ namespace slide {
 
 inline FixedData<double> range_fix(double x_min, double x_max, double x_step)
 {
-  int Nstep = static_cast<int>((x_max - x_min) / x_step) + 1;
+  int Nstep = static_cast<int>((x_max - x_min) / x_step + 1e-9) + 1; //!< rounding errors should not lose the last point
   return FixedData<double>(x_min, x_step, Nstep);
 }
 
-- 
2.43.0


From 1cd49a0241e41dd88763faf4ba52a87f7efba66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 14/60] fix: loading a data file copes with empty files, byte
 order marks, leading blanks and containers smaller than the file

---
 src/utility/io/read_CSVfiles.hpp | 51 ++++++++++++++++----------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index b62717e..27842b4 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -13,6 +13,7 @@
 #include "../../types/matrix.hpp"
 #include "../util_debug.hpp"
 
+#include <algorithm>
 #include <string>
 #include <iostream>
 #include <fstream>
@@ -53,6 +54,16 @@ inline auto getFile(std::string name)
   static std::map<std::string, std::string> fileMap;
 }
 
+inline void ignoreBOM(std::ifstream &in)
+{
+  char c = '.';
+
+  while ((in >> c) && c < 45) {} //!< Ignore byte order mark (BOM) at the beginning
+
+  if (in)
+    in.putback(c);
+}
+
 template <typename Tpath, typename T, size_t ROW, size_t COL>
 void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 {
@@ -74,10 +85,9 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
     throw 2;
   }
 
-  char c = '.';
+  ignoreBOM(in);
 
-  while (in.peek() <= 32) //!< Ignore byte order mark (BOM) at the beginning
-    in >> c;
+  char c = '.';
 
   for (size_t i = 0; i < ROW; i++) {
     //!< read all but the last column
@@ -99,17 +109,6 @@ void loadCSV_1col(const Tpath &name, std::array<T, ROW> &x)
   std::memcpy(&x, &temp, sizeof temp);
 }
 
-inline void ignoreBOM(std::ifstream &in)
-{
-  char c = '.';
-
-  do {
-    in >> c;
-  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
-
-  in.putback(c);
-}
-
 template <typename Tpath, typename Tx, typename Ty>
 void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
 {
@@ -152,8 +151,9 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
       y.push_back(y_i);
       j++;
     }
-  } else {                                                 //!< It must be a std::array, then just read without clear.
-    while ((n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
+  } else { //!< It must be a std::array, then just read without clear, as many rows as fit.
+    const int n_max = static_cast<int>(std::min(x.size(), y.size()));
+    while (j < n_max && (n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
       j++;
   }
 }
@@ -194,17 +194,20 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
   int n_rows{ 0 };
   while ((n == 0 || n_rows < n) && std::getline(in, line)) //!< Read file.
   {
-    n_rows++;
     std::istringstream in_line(line);
+    const auto n_before = x.data.size();
     double x_i;
     char c;
     while (in_line >> x_i) {
       x.data.push_back(x_i);
       in_line >> c;
     }
+
+    if (x.data.size() > n_before) //!< lines without numbers are not rows
+      n_rows++;
   }
 
-  int n_cols = x.data.size() / n_rows;
+  int n_cols = n_rows == 0 ? 0 : x.data.size() / n_rows;
 
   x.reshape(n_cols, n_rows);
 
@@ -248,13 +251,11 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
     XYdataMap[name_str] = std::move(xyp);
   }
 
-  if (n == 0) {
-    x = std::span<double>(XYdataMap[name_str].x_vec);
-    y = std::span<double>(XYdataMap[name_str].y_vec);
-  } else {
-    x = std::span<double>(&XYdataMap[name_str].x_vec[0], &XYdataMap[name_str].x_vec[0] + n); // #TODO temporary solution using pointers instead of iterators.
-    y = std::span<double>(&XYdataMap[name_str].y_vec[0], &XYdataMap[name_str].y_vec[0] + n);
-  }
+  auto &xy = XYdataMap[name_str];
+  const auto n_rows = (n == 0) ? xy.x_vec.size() : std::min(xy.x_vec.size(), static_cast<size_t>(n)); //!< not more than the file has.
+
+  x = std::span<double>(xy.x_vec.data(), n_rows);
+  y = std::span<double>(xy.y_vec.data(), n_rows);
 }
 
 } // namespace slide
\ No newline at end of file
-- 
2.43.0


From 16169b0d5afdd000880ed165d10a778348a518ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 15/60] fix: small vector refuses elements beyond its capacity,
 deep pointers can be copy-assigned, snapshots take single numbers, Cholesky
 update and iterator distance are right

---
 src/types/Deep_ptr.hpp                  | 2 +-
 src/types/FixedData.hpp                 | 2 +-
 src/types/SmallVector.hpp               | 2 +-
 src/types/data_storage/StateStorage.hpp | 2 +-
 src/types/matrix.hpp                    | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/Deep_ptr.hpp b/src/types/Deep_ptr.hpp
index 2b7d8ed..d14f9fc 100644
--- a/src/types/Deep_ptr.hpp
+++ b/src/types/Deep_ptr.hpp
@@ -58,7 +58,7 @@ public:
   /// Copy assignment operator
   Deep_ptr &operator=(const Deep_ptr &other)
   {
-    if (this != &other) ptr = other ? other->copy() : nullptr;
+    if (this != &other) ptr.reset(other ? other->copy() : nullptr);
 
     return *this;
   }
diff --git a/src/types/FixedData.hpp b/src/types/FixedData.hpp
index 9d1fffa..d5689ea 100644
--- a/src/types/FixedData.hpp
+++ b/src/types/FixedData.hpp
@@ -84,7 +84,7 @@ private:
 template <typename T, bool extrapolation = true>
 int distance(const FixedDataIter<T, extrapolation> &a, const FixedDataIter<T, extrapolation> &b)
 {
-  return a - b;
+  return b - a;
 }
 
 template <typename T, bool extrapolation>
diff --git a/src/types/SmallVector.hpp b/src/types/SmallVector.hpp
index 1930d47..4f5b33e 100644
--- a/src/types/SmallVector.hpp
+++ b/src/types/SmallVector.hpp
@@ -28,7 +28,7 @@ public:
 
   inline void push_back(const T &&elem)
   {
-    if (N > Nmax) {
+    if (N >= Nmax) {
       std::cerr << "Array is very small! Please increase its size from settings!\n";
       throw 1234;
     }
diff --git a/src/types/data_storage/StateStorage.hpp b/src/types/data_storage/StateStorage.hpp
index 5ce31d4..b79fcdb 100644
--- a/src/types/data_storage/StateStorage.hpp
+++ b/src/types/data_storage/StateStorage.hpp
@@ -30,7 +30,7 @@ public:
   template <typename T>
   void add(T &x)
   {
-    add({ &x, 1 });
+    add(std::span<T>(&x, 1));
   }
 
   template <typename T>
diff --git a/src/types/matrix.hpp b/src/types/matrix.hpp
index 69e8121..d623131 100644
--- a/src/types/matrix.hpp
+++ b/src/types/matrix.hpp
@@ -68,9 +68,9 @@ void cholUpdate(slide::Matrix<double, N, N> &L, std::array<double, N> x, bool is
 
     for (int j = k + 1; (k != (N - 1) && (j < N)); j++) {
       if (isDowndate)
-        L[j][k] -= s * x[j] / c;
+        L[j][k] = (L[j][k] - s * x[j]) / c;
       else
-        L[j][k] += s * x[j] / c;
+        L[j][k] = (L[j][k] + s * x[j]) / c;
       x[j] = c * x[j] - s * L[j][k];
     }
   }
-- 
2.43.0


From 0e30afee6634bba6ee33b044b1a253f11bddb5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 16/60] fix: Cell_SPM does not report the voltage of outdated
 curves or parameters

---
 src/cells/Cell_SPM/Cell_SPM.hpp         | 2 ++
 src/cells/Cell_SPM/Cell_SPM_fitting.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.hpp b/src/cells/Cell_SPM/Cell_SPM.hpp
index b2f18c4..ef6dc00 100644
--- a/src/cells/Cell_SPM/Cell_SPM.hpp
+++ b/src/cells/Cell_SPM/Cell_SPM.hpp
@@ -240,6 +240,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteCharacterisationStates(Dpi, Dni, ri);
     s_ini.overwriteCharacterisationStates(Dpi, Dni, ri);
+    Vcell_valid = false; //!< the stored voltage is no longer valid
   }
 
   void overwriteGeometricStates(double thickpi, double thickni, double epi, double eni, double api, double ani)
@@ -247,6 +248,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
     s_ini.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
+    Vcell_valid = false; //!< the stored voltage is no longer valid
   }
 
   //!< time integration
diff --git a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
index e7c32e6..64a15d0 100644
--- a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
@@ -219,6 +219,7 @@ void Cell_SPM::setOCVcurve(const std::string &namepos, const std::string &namene
    */
 
   //!< Store the OCV curves
+  Vcell_valid = false; //!< the voltage depends on the OCV curves, so the stored voltage is no longer valid
   try {
     OCV_curves.OCV_neg.setCurve(PathVar::data / nameneg); //!< the OCV curve of the anode, the first column gives the lithium fractions (increasing), the 2nd column gives the OCV vs li/li+
     OCV_curves.OCV_pos.setCurve(PathVar::data / namepos);
-- 
2.43.0


From 594e64fec4cb3e542d98c8938dc79ae801ff6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 17/60] fix: Cell_KokamNMC checks its initial states with the
 existing function

---
 src/cells/Cell_SPM/Cell_KokamNMC.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_KokamNMC.hpp b/src/cells/Cell_SPM/Cell_KokamNMC.hpp
index af1750f..ff46921 100644
--- a/src/cells/Cell_SPM/Cell_KokamNMC.hpp
+++ b/src/cells/Cell_SPM/Cell_KokamNMC.hpp
@@ -138,16 +138,14 @@ inline Cell_KokamNMC::Cell_KokamNMC(Model_SPM *MM, int verbosei)
 
   s_ini = st; //!< set the states, with a random value for the concentration
 
+  setC(fp, fn); //!< set the lithium concentration
+
   //!< Check if this was a valid state
-  try {
-    validState(st, s_ini);
-  } catch (int e) {
+  if (!validStates()) {
     std::cout << "Error in State::initialise, one of the states has an illegal value, throwing an error\n";
     throw 12;
   }
 
-  setC(fp, fn); //!< set the lithium concentration
-
   //!< SEI parameters
   nsei = 1;
   alphasei = 1;
-- 
2.43.0


From 8aeddb0c0a2192347eee5d7ca7351a7a72479142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 18/60] fix: a voltage that cannot be reached is refused
 without leaving wrong (or nan) currents behind

---
 src/utility/free_functions.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index a37613c..fdbc0f5 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -12,6 +12,7 @@
 #include "../settings/settings.hpp"
 #include "../types/Status.hpp"
 
+#include <cmath>
 #include <fstream>
 #include <string>
 #include <numeric>
@@ -27,22 +28,30 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  double Ia{ su->I() };
+  const double Iold{ su->I() };
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
+    const double Ia{ su->I() }; //!< not the requested current, since the previous one can be refused
     const auto Va = su->V();
     if (std::abs(Vset - Va) < 1e-6)
       return Status::Success;
 
     const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();
-    su->setCurrent(Ib);
+    if (isStatusBad(su->setCurrent(Ib)))
+      break;
+
     const auto Vb = su->V();
 
     const double slope = (Ia - Ib) / (Va - Vb);
-    Ia = Ib - (Vb - Vset) * slope; //!< False-Position method.
-    su->setCurrent(Ia);
+    const double Inew = Ib - (Vb - Vset) * slope; //!< False-Position method.
+    if (!std::isfinite(Inew))
+      break;
+
+    su->setCurrent(Inew);
   }
 
+  su->setCurrent(Iold, false, false); //!< the voltage is not reached, restore the old current
+
   return Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 }
 
-- 
2.43.0


From 16e1ef1c23ba231ebcaa99c618eed46e7a10c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:56 +0000
Subject: [PATCH 19/60] fix: parallel modules keep their total current while
 equalising voltages, and report when they cannot

---
 src/modules/Module_p.cpp | 53 ++++++++++++++++++++++++++++++++++------
 src/modules/Module_p.hpp |  1 +
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 95f2005..5bde1de 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -90,6 +90,26 @@ void Module_p::getVall(std::span<double> Vall, bool print) // #TODO span may not
   }
 }
 
+/**
+ * @brief Voltage towards which the SUs are driven when equalising their voltages.
+ *
+ * SU i changes its current in proportion to its capacity, so the mean has to be weighted with the capacities:
+ * then the changes add up to 0 and the total current of the module is preserved.
+ *
+ * @param Vall The voltage of each SU accounting for contact resistance.
+ * @return The mean voltage, weighted with the capacity of each SU.
+ */
+double Module_p::getVbalance(std::span<const double> Vall) const
+{
+  double sumVC{ 0 }, sumC{ 0 };
+  for (size_t i = 0; i < SUs.size(); i++) {
+    sumVC += Vall[i] * SUs[i]->Cap();
+    sumC += SUs[i]->Cap();
+  }
+
+  return sumVC / sumC;
+}
+
 /**
  * @brief Redistribute the current among the SUs to balance the voltage.
  *
@@ -130,12 +150,13 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
       error += std::abs(Vmean - Va[i]);
 
 
-    if (error < 1e-10) // Return success if the error is below the threshold
-      return Status::Success;
+    if (error < 1e-10) // Return success if the error is below the threshold and no SU refused its share of the current
+      return (std::abs(I() - Itot) < 1e-9 * std::max(1.0, std::abs(Itot))) ? Status::Success : StatusNow;
 
     // Update the currents based on the difference between mean and individual voltages
+    const auto Vbalance = getVbalance(Va);
     for (size_t i = 0; i < nSU; i++) {
-      Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
+      Ia[i] = Ia[i] - (Vbalance - Va[i]) * SUs[i]->Cap();
       SUs[i]->setCurrent(Ia[i]);
     }
 
@@ -155,11 +176,14 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
 
   auto StatusNow = Status::RedistributeCurrent_failed;
 
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va;
+  std::array<double, settings::MODULE_NSUs_MAX> Ia, Va;
 
   //!< get the old currents so we can revert if needed
+  std::vector<double> Iolds;
+  getCellCurrents(Iolds);
+
   for (size_t i{}; i < SUs.size(); i++)
-    Ia[i] = Iolds[i] = SUs[i]->I();
+    Ia[i] = SUs[i]->I();
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
@@ -183,6 +207,11 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
   if constexpr (settings::printNumIterations)
     std::cout << "setVoltage iterations: " << iter << '\n';
 
+  if (StatusNow != Status::Success) { //!< the voltage is not reached, restore the old currents
+    std::span<const double> spn_old{ Iolds };
+    restoreCellCurrents(spn_old);
+  }
+
   return StatusNow; // #TODO add some voltage/current etc. check
 }
 
@@ -234,6 +263,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   }
 
   getVall(Va, print);
+  StatusNow = Status::RedistributeCurrent_failed; //!< until the voltages are equal
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
@@ -248,12 +278,14 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
       error += std::abs(Vmean - Va[i]);
 
     if (error < 1e-9) {
-      StatusNow = Status::Success;
+      if (std::abs(I() - Inew) < 1e-9 * std::max(1.0, std::abs(Inew))) //!< no SU refused its share of the current
+        StatusNow = Status::Success;
       break;
     }
 
+    const auto Vbalance = getVbalance(Va);
     for (size_t i = 0; i < nSU; i++) {
-      Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
+      Ia[i] = Ia[i] - (Vbalance - Va[i]) * SUs[i]->Cap();
       if (!isStatusSuccessful(SUs[i]->setCurrent(Ia[i])))
         std::cout << "This should not happen!!" << std::endl; // #TODO
     }
@@ -279,7 +311,12 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   if constexpr (settings::printNumIterations)
     if (iter != 0) std::cout << "setCurrent iterations: " << iter << '\n';
-  // #TODO set old currents back here!
+
+  if (isStatusBad(StatusNow)) { //!< the SUs could not be brought to the same voltage, restore the old currents
+    std::span<const double> spn_old{ Iolds };
+    restoreCellCurrents(spn_old);
+  }
+
   return StatusNow; //!< #TODO problem
 }
 
diff --git a/src/modules/Module_p.hpp b/src/modules/Module_p.hpp
index c763b0e..aea1a37 100644
--- a/src/modules/Module_p.hpp
+++ b/src/modules/Module_p.hpp
@@ -19,6 +19,7 @@ class Module_p : public Module
 {
 protected:
   void getVall(std::span<double> Vall, bool print = true); //!< get the voltage of all SUs while accounting for the contact resistance
+  double getVbalance(std::span<const double> Vall) const;  //!< mean of the voltages of all SUs, weighted with their capacities
 
 public:
   Module_p() : Module("moduleP") {} //!< #TODO note this constructor should never be used. It can't determine which coolsystem to use
-- 
2.43.0


From 8838bc648c0faf7d24da090ce1a8c04acd549f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 20/60] fix: Module::getNcells counts the cells it contains
 now, and none when it is empty

---
 src/modules/Module.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index b7bb799..27e7285 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -49,7 +49,7 @@ protected:
   ModuleThermalParam therm;
 
   //!< voltage
-  size_t Ncells;               //!< Number of cells this module contains.
+  size_t Ncells{ 0 };          //!< Number of cells this module contains.
   double Vmodule{ 0 };         //!< voltage of the module
   bool Vmodule_valid{ false }; //!< boolean indicating if stored the voltage of the module is valid
   bool par{ true };            //!< if true, some functions will be calculated parallel using multithreaded computing
@@ -198,7 +198,7 @@ public:
    * e.g. if this module has 3 child-modules, each with 2 cells.
    * then getNSUs = 3 but getNcells = 6
    *****************************************************************/
-  size_t getNcells() override { return Ncells; }
+  size_t getNcells() override { return calculateNcells(); } //!< SUs of child-modules can have changed
 
   //!< Return the temperature of the hottest element of the module.
   //!< Note that this will be the T of a cell, since child-modules will pass on
-- 
2.43.0


From 14d1127d81430d7c151562ab8eda718243335e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 21/60] fix: an exception in a worker thread reaches the
 caller, and work is done when the number of processors is unknown

---
 src/utility/parallelisation.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index 42ef21e..e9e9f41 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -12,6 +12,8 @@
 
 #include "../settings/settings.hpp"
 
+#include <algorithm>
+#include <exception>
 #include <thread>
 #include <vector>
 
@@ -35,7 +37,22 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       if (numMaxParallelWorkers < 1)
         numMaxParallelWorkers = std::thread::hardware_concurrency();
 
-      const unsigned int N_th_max = std::min(numMaxParallelWorkers, std::thread::hardware_concurrency());
+      const unsigned int N_th_max = std::max(1u, std::min(numMaxParallelWorkers, std::thread::hardware_concurrency())); //!< hardware_concurrency() is 0 if it is unknown
+
+      //!< what went wrong in each thread and at which index, an exception may not leave a thread
+      std::vector<std::exception_ptr> errors(N_th_max);
+      std::vector<int> i_error(N_th_max, i_end);
+
+      auto task_thread = [&](int i_begin, int Nth) {
+        int i{ i_begin };
+        try {
+          for (; i < i_end; i += Nth)
+            task_indv(i);
+        } catch (...) {
+          errors[i_begin] = std::current_exception();
+          i_error[i_begin] = i;
+        }
+      };
 
       std::vector<std::thread> threads;
       threads.reserve(N_th_max);
@@ -44,13 +61,18 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       {
         //!< Multi threaded simul:
 
-        threads.emplace_back(task_par, i_begin, i_end, N_th_max);
+        threads.emplace_back(task_thread, i_begin, N_th_max);
       }
 
       for (auto &th : threads) {
         if (th.joinable())
           th.join();
       }
+
+      //!< pass on the error of the first index which failed, as if the tasks were done one after another
+      const auto first = std::min_element(i_error.begin(), i_error.end()) - i_error.begin();
+      if (errors[first])
+        std::rethrow_exception(errors[first]);
     }
   } else {
     task_par(0, i_end, 1);
-- 
2.43.0


From 3e75cb8766126548fa225f0b33b59d7caf75331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:31 +0000
Subject: [PATCH 22/60] fix: a time step of zero length leaves an ageing cell
 alone instead of making its states nan

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 66190d7..d85941f 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -266,6 +266,9 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     throw 10;
   }
 
+  if (dt * nstep == 0) //!< no time passes so nothing changes, some degradation models divide by the length of the time step
+    return;
+
   const bool print = true;
 
   //!< Update the stress values stored in the attributes with the stress of the previous time step
-- 
2.43.0


From fc4fba35381eb0098fcaae148c24bb5c7f8ac4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 23/60] fix: the fourth loss-of-material model lowers the
 volume fraction along with the effective surface, so an aged cell's states
 stay valid

---
 src/cells/Cell_SPM/Cell_SPM_degradation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
index 6ebd624..88c5a4f 100644
--- a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
@@ -424,8 +424,10 @@ void Cell_SPM::LAM(bool print, double zp_surf, double etap, double *dthickp, dou
     } break;
     case 4: //!< Model by Narayanrao, Joglekar, Inguva, Journal of the Electrochemical Society 160 (1), 2012
       //!< Add the effects of this model
-      dapp += -lam_p.lam4p * st.ap(); //!< equation (7) from the paper
-      dann += -lam_p.lam4n * st.an();
+      //!< equation (7) from the paper, da = -k*a. The effective surface is a = 3*e/R, so it is the volume fraction which has to decrease;
+      //!< getDegradation adds the corresponding change in effective surface
+      depp += -lam_p.lam4p * st.ep();
+      denn += -lam_p.lam4n * st.en();
       //!< assume the other effects are 0
       break;
     default: //!< unknown degradation model
-- 
2.43.0


From 5715ce23c4c409b1dadf40b49b4c0a7fa4517a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:09 +0000
Subject: [PATCH 24/60] fix: a cell's variation factors are stored and scale
 the degradation rates, and nothing but the rates

---
 src/cells/Cell_SPM/Cell_SPM.cpp       | 6 ++++++
 src/cells/Cell_SPM/param/CSparam.hpp  | 7 +++++--
 src/cells/Cell_SPM/param/LAMparam.hpp | 7 +++++--
 src/cells/Cell_SPM/param/PLparam.hpp  | 3 +--
 src/cells/Cell_SPM/param/SEIparam.hpp | 7 +++++--
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 5d70bd3..481e41c 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -633,6 +633,12 @@ void Cell_SPM::setC(double cp0, double cn0)
 Cell_SPM::Cell_SPM(std::string IDi, const DEG_ID &degid, double capf, double resf, double degfsei, double degflam) : Cell_SPM()
 {
   ID = IDi;
+  //!< store the cell-to-cell variations
+  var_cap = capf;
+  var_R = resf;
+  var_degSEI = degfsei;
+  var_degLAM = degflam;
+
   //!< Set the resistance
 
   st.rDCcc() *= resf; //!< current collector
diff --git a/src/cells/Cell_SPM/param/CSparam.hpp b/src/cells/Cell_SPM/param/CSparam.hpp
index 3a7a35a..8dae486 100644
--- a/src/cells/Cell_SPM/param/CSparam.hpp
+++ b/src/cells/Cell_SPM/param/CSparam.hpp
@@ -9,6 +9,8 @@
  */
 #pragma once
 
+#include <initializer_list>
+
 namespace slide::param {
 //!< Define a structure with the fitting parameters of the surface crack growth models (CS)
 struct CSparam
@@ -31,8 +33,9 @@ struct CSparam
 
   auto &operator*=(double a)
   {
-    for (auto &item : *this)
-      item *= a;
+    //!< speed up or slow down the degradation: only the rates
+    for (auto *rate : { &CS1alpha, &CS2alpha, &CS3alpha, &CS4alpha, &CS5k })
+      *rate *= a;
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/LAMparam.hpp b/src/cells/Cell_SPM/param/LAMparam.hpp
index 09f5cac..d7ba464 100644
--- a/src/cells/Cell_SPM/param/LAMparam.hpp
+++ b/src/cells/Cell_SPM/param/LAMparam.hpp
@@ -10,6 +10,8 @@
 
 #pragma once
 
+#include <initializer_list>
+
 namespace slide::param {
 //!< Define a structure with the fitting parameters of the models for loss of active material (LAM)
 struct LAMparam //!< #TODO if begin and end is ok for alignment.
@@ -34,8 +36,9 @@ struct LAMparam //!< #TODO if begin and end is ok for alignment.
 
   auto &operator*=(double a)
   {
-    for (auto &item : *this)
-      item *= a;
+    //!< speed up or slow down the degradation: only the rates, not the activation energies
+    for (auto *rate : { &lam1p, &lam1n, &lam2ap, &lam2bp, &lam2an, &lam2bn, &lam3k, &lam4p, &lam4n })
+      *rate *= a;
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/PLparam.hpp b/src/cells/Cell_SPM/param/PLparam.hpp
index 5428bce..93224fa 100644
--- a/src/cells/Cell_SPM/param/PLparam.hpp
+++ b/src/cells/Cell_SPM/param/PLparam.hpp
@@ -22,8 +22,7 @@ struct PLparam
 
   auto &operator*=(double a)
   {
-    for (auto &item : *this)
-      item *= a;
+    pl1k *= a; //!< speed up or slow down the degradation: only the rate, not the activation energy
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/SEIparam.hpp b/src/cells/Cell_SPM/param/SEIparam.hpp
index dc886b4..ef0187c 100644
--- a/src/cells/Cell_SPM/param/SEIparam.hpp
+++ b/src/cells/Cell_SPM/param/SEIparam.hpp
@@ -10,6 +10,8 @@
 
 #pragma once
 
+#include <initializer_list>
+
 namespace slide::param {
 struct SEIparam
 {
@@ -40,8 +42,9 @@ struct SEIparam
 
   auto &operator*=(double a)
   {
-    for (auto &item : *this)
-      item *= a;
+    //!< speed up or slow down the degradation: only the rates, not the activation energies
+    for (auto *rate : { &sei1k, &sei2k, &sei2D, &sei3k, &sei3D, &sei4k, &sei4D })
+      *rate *= a;
 
     return *this;
   }
-- 
2.43.0


From 604fe5ee0e099f01df54219a99bafffa54a10b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 25/60] fix: a constant current or rest which ends early still
 reports the time and throughput until then

---
 src/procedures/Cycler.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7aab5d5..9ef6330 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -133,6 +133,7 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
 
     //!< Increase the throughput
     ttot += dti * nOnce;
+    th.time() += dti * nOnce; //!< there is no throughput during resting
     idat += nOnce;
 
     //!< Store a data point if needed
@@ -170,8 +171,6 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
 
   if (boolStoreData) storeData();
 
-  th.time() += ttot; //!< there is no throughput during resting
-
   return succ;
 }
 
@@ -284,9 +283,18 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       return Status::timeStep_CC_failed;
     }
 
+    //!< Increase the throughput
+    const auto dt_now = dti * nOnce;
+    const auto dAh = std::abs(I) * dt_now / 3600.0;
+    th.time() += dt_now;
+    ttot += dt_now;
+    th.Ah() += dAh;
+    idat += nOnce;
+
     //!< get the voltage
     if (diagnostic) {
       const auto status = su->checkVoltage(vi, true);
+      th.Wh() += dAh * vi;
       if (!isStatusSuccessful(status)) { //!< in diagnostic mode and the voltage of one of the cells was violated
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "in Cycler::CC, the voltage of a cell became invalid in time step when the total voltage was "
@@ -296,6 +304,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
     } else {
       const auto v_prev = vi;
       vi = su->V();
+      th.Wh() += dAh * vi;
       if (vi <= 0) {
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "error in Cycler::CC in time step when getting the voltage. The previous voltage was "
@@ -304,15 +313,6 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       }
     }
 
-    auto myVnow = su->V();
-    //!< Increase the throughput
-    const auto dt_now = dti * nOnce;
-    th.time() += dt_now;
-    ttot += dt_now;
-    th.Ah() += std::abs(I) * dt_now / 3600.0;
-    idat += nOnce;
-    th.Wh() += std::abs(I) * dt_now / 3600 * vi;
-
     //!< Store a data point if needed
     if (boolStoreData && idat >= ndt_data) {
       storeData();
-- 
2.43.0


From d7ee0963fe0dc70c5324729b49a5e87b1d566849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 26/60] fix: reducing the charging current does not count as
 reaching the upper voltage limit

---
 src/procedures/Cycler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 9ef6330..05f6168 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -203,7 +203,7 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< check if the voltage limit was exceeded while setting the current
   if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
     return Status::ReachedVoltageLimit;
-  else {
+  else if (I >= 0) { //!< not when charging: the voltage also drops when the charging current is reduced
     if (Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
   }
 
-- 
2.43.0


From f0954b8470fe376e031c6927b07ecbf7e19f7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 27/60] fix: a constant current which the storage unit refuses
 is not simulated

---
 src/procedures/Cycler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 05f6168..29c5420 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -199,6 +199,8 @@ Status Cycler::setCurrent(double I, double vlim)
     return status;
   }
 
+  if (isStatusBad(status)) return status; //!< the current could not be set for another reason
+
   const double Vnew = su->V();
   //!< check if the voltage limit was exceeded while setting the current
   if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
@@ -265,6 +267,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
   //!< apply current
   while (ttot < tlim) {
     auto succ = setCurrent(I, vlim); // #TODO this was not here I added to get nice results from
+    if (isStatusBad(succ) && !isStatusVoltageLimitsViolated(succ)) return succ; //!< the current cannot be maintained
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (nOnce * dti > tlim - ttot) //!< we are close to the total time -> set nOnce to 1
       nOnce = 1;
-- 
2.43.0


From 852ae2889429dc3ce1ac9d1dda2650671442575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 28/60] fix: a constant current stops at the safety limits of
 the cycler

---
 src/procedures/Cycler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 29c5420..911b589 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -322,6 +322,11 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       idat = 0;
     }
 
+    //!< check the safety limit
+    const auto safetyStatus = free::check_safety(vi, *this);
+    if ((I < 0 && safetyStatus == Status::VMAXsafety_violation) || (I > 0 && safetyStatus == Status::VMINsafety_violation))
+      return safetyStatus;
+
     //!< check the voltage limit
     if (((I < 0) && (vi > vlim)) || ((I > 0) && (vi < vlim))) { //!< charging -> exceeded if Vnew > vlim
       vtot = true;                                              //!< indicate the voltage limit was reached
-- 
2.43.0


From 8ca2a9efcdba7543b5d246a98965d23ddcf05a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 29/60] fix: data points are stored every ndt_data time steps

---
 src/procedures/Cycler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 911b589..bf146c4 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -154,6 +154,7 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
         ninc = true;
     }
     nOnce = std::clamp(nOnce, 1, nOnceMax); //!< respect min and maximum
+    if (boolStoreData) nOnce = std::min(nOnce, ndt_data - idat); //!< do not step past the next data point
 
   } //!< end time integration
 
@@ -395,6 +396,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
 
     //!< check minimum and maximum of nOnce
     nOnce = std::clamp(nOnce, 1, nOnceMax); //!< respect min and max
+    if (boolStoreData) nOnce = std::min(nOnce, ndt_data - idat); //!< do not step past the next data point
     vo = vi;                                //!< update the voltage from the previous time step
 
   } //!< end time integration
-- 
2.43.0


From 6052b02508a672f7833b30cdeab877518e2f0d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 30/60] fix: a constant voltage phase reports its duration

---
 src/procedures/Cycler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index bf146c4..7eb95cf 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -471,6 +471,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
     const auto dAh = std::abs(su->I() * dti / 3600.0);
     vi = su->V();
     ttot += dti;
+    th.time() += dti;
     th.Ah() += dAh;
     th.Wh() += dAh * vi;
 
-- 
2.43.0


From 7448b0d6f8e89afcacab644bc93d66ce92327680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 31/60] fix: a constant voltage phase ends when the voltage
 cannot be set

---
 src/procedures/Cycler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7eb95cf..c5459c7 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -451,7 +451,8 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   bool reach;
 
   for (size_t i = 0; i < nt; i++) {
-    su->setVoltage(Vset);
+    const auto status = su->setVoltage(Vset);
+    if (isStatusBad(status)) return status; //!< the voltage cannot be held
 
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (i + 1 == nt)
-- 
2.43.0


From 27c730890d2a5cf96be5790b1a972f0b1724957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 32/60] fix: a constant voltage phase ends at its time limit
 whatever the rounding of the time steps

---
 src/procedures/Cycler.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index c5459c7..5c1c9f7 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -441,8 +441,6 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
 
   //!< *******************************************************  apply voltage  ****************************************************************************
 
-  const auto nt = static_cast<size_t>(std::ceil(tlim / dt)); //!< number of time steps
-
   double dti = dt;         //!< length of time step i
   double ttot = 0;         //!< total time done
   bool Itot = false;       //!< boolean indicating if Ilim has been reached
@@ -450,13 +448,13 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   double dI, a;            //!< change in current we will apply to keep the voltage constant
   bool reach;
 
-  for (size_t i = 0; i < nt; i++) {
+  for (size_t i = 0; ttot < tlim; i++) {
     const auto status = su->setVoltage(Vset);
     if (isStatusBad(status)) return status; //!< the voltage cannot be held
 
     //!< change length of the time step in the last iteration to get exactly tlim seconds
-    if (i + 1 == nt)
-      dti = tlim - dt * (nt - 1);
+    if (dti > tlim - ttot)
+      dti = tlim - ttot;
 
     //!< take a time step
     try {
-- 
2.43.0


From baccaeed1a288893567d0ff3057c869c2f042ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 33/60] fix: a capacity test restores the original states when
 it succeeds, as documented

---
 src/procedures/Cycler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 5c1c9f7..4e6c8f3 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -649,6 +649,9 @@ double Cycler::testCapacity(double &Ah, double &ttot)
     return 0;
   }
 
+  //!< restore the original states
+  su->setStates(sini_span, false, true);
+
   Ah = th1.Ah() + th2.Ah();
   return th2.Ah();
 }
-- 
2.43.0


From fb986edbbe10215bdf13f4bd846e45978d5ae167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 34/60] fix: record the air conditioning data of HVAC cooling
 systems

---
 src/cooling/data_storage/CoolSystem_HVACData.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cooling/data_storage/CoolSystem_HVACData.hpp b/src/cooling/data_storage/CoolSystem_HVACData.hpp
index 9203957..077d285 100644
--- a/src/cooling/data_storage/CoolSystem_HVACData.hpp
+++ b/src/cooling/data_storage/CoolSystem_HVACData.hpp
@@ -18,7 +18,7 @@ class CoolSystem_HVAC;
 struct CoolSystem_HVACData
 {
   CoolSystem_HVACCumulative cData;              //!< Cumulative variables.
-  [[no_unique_address]] CoolSystemData_t tData; //!< Time data (histogram or basic data)
+  [[no_unique_address]] CoolSystem_HVACData_t tData; //!< Time data (histogram or basic data)
 
 public:
   void initialise(CoolSystem_HVAC &cs, double Qac_per_cell); //!< Do nothing.
-- 
2.43.0


From c5b61db350ef1a66d3236d44d701e23f8fadbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 35/60] fix: time data of a cooling system hold the means since
 the previous data point

---
 src/cooling/data_storage/CoolSystemData.cpp      | 5 +++++
 src/cooling/data_storage/CoolSystem_HVACData.cpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/cooling/data_storage/CoolSystemData.cpp b/src/cooling/data_storage/CoolSystemData.cpp
index ae89822..158f1f6 100644
--- a/src/cooling/data_storage/CoolSystemData.cpp
+++ b/src/cooling/data_storage/CoolSystemData.cpp
@@ -67,6 +67,11 @@ void CoolSystemData::storeData(CoolSystem &cs, CoolSystemInst_t &data)
                    cData.Qevac / cData.time, //!< cooling power
                    cData.E / cData.time,     //!< operating energy
                    cs.getFlr() });           //!< flow rate
+
+  //!< reset variables to calculate the mean
+  cData.E = 0;
+  cData.Qevac = 0;
+  cData.time = 0;
 }
 
 //!< ----- writeData ------
diff --git a/src/cooling/data_storage/CoolSystem_HVACData.cpp b/src/cooling/data_storage/CoolSystem_HVACData.cpp
index 39a6afd..fa3cd81 100644
--- a/src/cooling/data_storage/CoolSystem_HVACData.cpp
+++ b/src/cooling/data_storage/CoolSystem_HVACData.cpp
@@ -57,6 +57,9 @@ void CoolSystem_HVACData::storeData(CoolSystem_HVAC &cs, CoolSystem_HVACInst_t &
   const double Eacmean = cData.Eac / cs.coolData.cData.time;
 
   data.push_back({ cs.Q_ac, Eacmean }); //!< flow rate
+
+  //!< reset variables to calculate the mean
+  cData.Eac = 0;
 }
 
 //!< ----- writeData ------
-- 
2.43.0


From 79fbc7a2fda97c6055da07849a68a98592ad71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 36/60] fix: the minimum power of the air conditioning is
 relative to its own proportional gain

---
 src/cooling/CoolSystem_HVAC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cooling/CoolSystem_HVAC.cpp b/src/cooling/CoolSystem_HVAC.cpp
index f5abc25..11a73b9 100644
--- a/src/cooling/CoolSystem_HVAC.cpp
+++ b/src/cooling/CoolSystem_HVAC.cpp
@@ -227,7 +227,7 @@ void CoolSystem_HVAC::control(double Thot_local, double Thot_global)
 
     if (T() <= controlAC_onoff_Toff)
       Q_ac = 0;
-    else if (control_prop_gain * Terr > 0.2)                                //!< avoid very small cooling powers
+    else if (controlAC_prop_gain * Terr > 0.2)                              //!< avoid very small cooling powers
       Q_ac = controlAC_onoff_Q * std::min(controlAC_prop_gain * Terr, 1.0); //!< can't do more than the design-power
     else
       Q_ac = 0;
@@ -241,7 +241,7 @@ void CoolSystem_HVAC::control(double Thot_local, double Thot_global)
 
     if (T() <= controlAC_onoff_Toff)
       Q_ac = 0;
-    else if (control_prop_gain * Terr > 0.2)                                //!< avoid very small cooling powers
+    else if (controlAC_prop_gain * Terr > 0.2)                              //!< avoid very small cooling powers
       Q_ac = controlAC_onoff_Q * std::min(controlAC_prop_gain * Terr, 1.0); //!< can't do more than the design-power
     else
       Q_ac = 0;
-- 
2.43.0


From a00e4fe4290a51bebfe4c446b3b1ceb46b925f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 37/60] fix: heat of the contact resistances of a parallel
 module follows the current through each of them

---
 src/modules/Module_p.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 5bde1de..7d8cd47 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -358,10 +358,10 @@ void Module_p::timeStep_CC(double dt, int nstep)
     therm.time += nstep * dt;
 
     //!< Increase the heat from the contact resistances
-    double Ii = 0; //!< current through resistor I
     for (size_t i = 0; i < SUs.size(); i++) {
-      for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
-        Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them
+      double Ii = 0; //!< current through resistor I
+      for (size_t j = i; j < SUs.size(); j++)
+        Ii += SUs[j]->I(); //!< resistor i sees the currents through the cells 'behind' them
 
       therm.Qcontact += Rcontact[i] * sqr(Ii) * nstep * dt;
     }
-- 
2.43.0


From 6cf26bbf7a1842e4844399d843535014ea2a07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 38/60] fix: the battery cools all copies of its module

---
 src/system/Battery.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 25aa772..09e69f3 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -144,6 +144,7 @@ double Battery::thermalModel(int Nneighb, double Tneighb[], double Kneighb[], do
 
     //!< The battery heats up from cooling all cells
     double Echildren = Ksu[0] * Asu[0] * (cells->T() - T()) * tim; //!< cooling energy extracted from the children
+    Echildren *= nseries * nparallel;                              //!< all copies of the module are cooled, like all their cells are included in the sizing of the coolsystem
     //!< double Qcells = Echildren;
 
     //!< and from the losses in the converter
-- 
2.43.0


From 196be83c81f512d0ce2d908fdbab96ac6b1e2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 39/60] fix: the cooling load of a battery includes all copies
 of its module

---
 src/system/Battery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 09e69f3..c888b24 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -199,7 +199,7 @@ double Battery::getCoolingLoad()
   getCoolSystem()->reset_Eoperation();            //!< reset to 0
 
   //!< coolsystem of child cells
-  Etot += cells->getCoolingLoad();
+  Etot += cells->getCoolingLoad() * nseries * nparallel; //!< every copy of the module has its own coolsystems
 
   return Etot;
 }
-- 
2.43.0


From 074579f8b69d4d69ee0d17d919187eda1652f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 40/60] fix: end the last row of recorded data, the next data
 are appended to the same file

---
 src/utility/free_functions.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index fdbc0f5..618f491 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -57,15 +57,8 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
 
 inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N = 1)
 {
-  for (size_t i{}; i < data.size(); i++) {
-    if (i % N == 0) {
-      if (i != 0)
-        file << '\n';
-    } else
-      file << ',';
-
-    file << data[i];
-  }
+  for (size_t i{}; i < data.size(); i++)
+    file << data[i] << ((i + 1) % N == 0 ? '\n' : ','); //!< end every row, the next data are appended to the same file
 
   data.clear(); //!< reset the index to 0 since we can overwrite the stored data
 }
-- 
2.43.0


From 7cbb7d37a42872f722a54be5175de1da3baab32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:18 +0000
Subject: [PATCH 41/60] fix: store and write cell data as histograms (the
 setting did not compile)

---
 src/types/data_storage/CellDataStorage.hpp | 3 +++
 src/types/data_storage/CellDataWriter.hpp  | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/types/data_storage/CellDataStorage.hpp b/src/types/data_storage/CellDataStorage.hpp
index ae9810e..8471ab3 100644
--- a/src/types/data_storage/CellDataStorage.hpp
+++ b/src/types/data_storage/CellDataStorage.hpp
@@ -44,6 +44,9 @@ struct CellDataStorage<settings::cellDataStorageLevel::storeHistogramData> //!<
   template <typename Cell_t>
   inline void storeData(Cell_t &cell)
   {
+    if (data[0].size() == 0) //!< first data point
+      initialise(cell);
+
     data[0].add(cell.I());
     data[1].add(cell.V());
     data[2].add(cell.T());
diff --git a/src/types/data_storage/CellDataWriter.hpp b/src/types/data_storage/CellDataWriter.hpp
index 546cd25..0b1388b 100644
--- a/src/types/data_storage/CellDataWriter.hpp
+++ b/src/types/data_storage/CellDataWriter.hpp
@@ -43,8 +43,10 @@ void writeDataImpl(std::ofstream &file, auto &cell, auto &dataStorage)
   if constexpr (settings::data::writeCumulativeData)
     writeVarAndStates(file, cell);
 
-  if constexpr (N >= settings::cellDataStorageLevel::storeHistogramData)
+  if constexpr (N == settings::cellDataStorageLevel::storeTimeData)
     free::write_data(file, dataStorage.data, 7);
+  else if constexpr (N == settings::cellDataStorageLevel::storeHistogramData)
+    slide::writeData(file, dataStorage.data);
   //!< else write nothing.
 }
 
-- 
2.43.0


From 56852eba25754b09b7fca409a5df1b082b302122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 42/60] fix: a phase that ends early also records its end, as
 documented

---
 src/procedures/Cycler.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 4e6c8f3..c1b75c4 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -111,6 +111,7 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
         std::cout << "Error in Cycler::rest when setting the current to 0: "
                   << getStatusMessage(succ) << '\n';
 
+      if (boolStoreData && ttot > 0) storeData(); //!< the end of this phase
       return succ;
     }
 
@@ -268,7 +269,10 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
   //!< apply current
   while (ttot < tlim) {
     auto succ = setCurrent(I, vlim); // #TODO this was not here I added to get nice results from
-    if (isStatusBad(succ) && !isStatusVoltageLimitsViolated(succ)) return succ; //!< the current cannot be maintained
+    if (isStatusBad(succ) && !isStatusVoltageLimitsViolated(succ)) { //!< the current cannot be maintained
+      if (boolStoreData) storeData();                                //!< the end of this phase
+      return succ;
+    }
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (nOnce * dti > tlim - ttot) //!< we are close to the total time -> set nOnce to 1
       nOnce = 1;
@@ -303,6 +307,7 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
         if constexpr (settings::printBool::printNonCrit)
           std::cout << "in Cycler::CC, the voltage of a cell became invalid in time step when the total voltage was "
                     << vi << '\n';
+        if (boolStoreData) storeData(); //!< the end of this phase
         return status; //!< previously -4
       }
     } else {
@@ -325,8 +330,10 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
 
     //!< check the safety limit
     const auto safetyStatus = free::check_safety(vi, *this);
-    if ((I < 0 && safetyStatus == Status::VMAXsafety_violation) || (I > 0 && safetyStatus == Status::VMINsafety_violation))
+    if ((I < 0 && safetyStatus == Status::VMAXsafety_violation) || (I > 0 && safetyStatus == Status::VMINsafety_violation)) {
+      if (boolStoreData) storeData(); //!< the end of this phase
       return safetyStatus;
+    }
 
     //!< check the voltage limit
     if (((I < 0) && (vi > vlim)) || ((I > 0) && (vi < vlim))) { //!< charging -> exceeded if Vnew > vlim
@@ -450,7 +457,10 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
 
   for (size_t i = 0; ttot < tlim; i++) {
     const auto status = su->setVoltage(Vset);
-    if (isStatusBad(status)) return status; //!< the voltage cannot be held
+    if (isStatusBad(status)) { //!< the voltage cannot be held
+      if (boolStoreData) storeData(); //!< the end of this phase
+      return status;
+    }
 
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (dti > tlim - ttot)
@@ -480,8 +490,10 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
       storeData();
     const auto safetyStatus = free::check_safety(vi, *this);
 
-    if (safetyStatus != Status::SafeVoltage)
+    if (safetyStatus != Status::SafeVoltage) {
+      if (boolStoreData) storeData(); //!< the end of this phase
       return safetyStatus;
+    }
 
     //!< check the current limit
     Ii = su->I();
-- 
2.43.0


From c7b2ad1292603dd504a0da10609bb77b0bf3feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 43/60] fix: a check-up writes every state but the
 concentrations, under a header with separated columns

---
 src/procedures/Procedure.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6eaf862..cfec153 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -459,14 +459,13 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //  open and clear whatever was there since we want to write the most recent stats only
 
   //!< do the main checkup, which writes the throughput, capacity and state of every cell
-  const size_t start = (typeid(*cells[0]) == typeid(Cell_SPM)) ? 2 * settings::nch : 0; // #TODO : Consider having different type of cells.
   //!< Write the throughput of each cell
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
   //!< else write the cumulative charge throughput
   file.open(name, std::ios_base::app); //!< open from scratch, clear whatever was in the file before
 
-  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber";
+  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber,";
   file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
 
   for (auto &cell : cells) {
@@ -485,9 +484,11 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
     file << th.time() << ',' << th.Ah() << ',' << th.Wh() << ',' << cap;
 
-    const auto st_view = cell->viewStates();         //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
-    for (size_t i{ start }; i < st_view.size(); i++) //!< loop for each state variable (rows)
-      file << ',' << st_view[i];
+    const bool is_SPM = (typeid(*cell) == typeid(Cell_SPM));
+    const auto st_view = cell->viewStates();     //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
+    for (size_t i{ 0 }; i < st_view.size(); i++) //!< loop for each state variable (rows)
+      if (!is_SPM || i < State_SPM::i_zp || i >= State_SPM::i_rDCp)
+        file << ',' << st_view[i];
 
     file << '\n'
          << '\n';
-- 
2.43.0


From 2c5db08ac7b7acc5807451fb1d7f93f1d0698433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 44/60] fix: write the check-up of the cells in the results
 folder, like every other file

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index cfec153..d75e95e 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -463,7 +463,7 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
   //!< else write the cumulative charge throughput
-  file.open(name, std::ios_base::app); //!< open from scratch, clear whatever was in the file before
+  file.open(PathVar::results / name, std::ios_base::app); //!< append to what previous check-ups wrote
 
   file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber,";
   file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
-- 
2.43.0


From b3b0fb76639b11c4702e70ab0c7948c424fe78d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 45/60] fix: the throughput file has a row per action, with its
 number and its own throughput

---
 src/procedures/Procedure.cpp         | 38 +++++++++++++++-------------
 src/procedures/Procedure.hpp         |  3 ++-
 src/types/data_storage/cell_data.hpp |  2 +-
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index d75e95e..1a76727 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -53,6 +53,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   const double Ilim{ 0.1 }, Icha{ -Ccha * su->Cap() }, Idis{ Cdis * su->Cap() };
   Status succ{};
   ThroughputData th{};
+  th_stored = th;
 
   //!< Make a clock to measure how long the simulation takes
   Clock clk{};
@@ -76,7 +77,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
       break;
     }
 
-    storeThroughput(th, su); //!< increase the throughput parameters
+    storeThroughput(1, th, su); //!< increase the throughput parameters
 
     if ((th.Ah() - th_before) < 1e-5) {
       std::cerr << "Error in Procedure::cycleAge, we didn't manage to charge "
@@ -94,12 +95,12 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
         break;
       }
 
-      storeThroughput(th, su); // #TODO why do we do this?
+      storeThroughput(2, th, su); // #TODO why do we do this?
     }
 
 
     succ = cyc.CC(Idis, Vmin, TIME_INF, dt, ndata, th); //!< CC discharge
-    storeThroughput(th, su);
+    storeThroughput(3, th, su);
     if (!isVoltageLimitReached(succ)) {
       std::cout << "Error in CycleAge when discharging in cycle " << i << ", stop cycling.\n";
       break;
@@ -113,7 +114,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
         std::cout << "Error in CycleAge when CV discharging in cycle " << i << ", stop cycling.\n";
         break;
       }
-      storeThroughput(th, su);
+      storeThroughput(4, th, su);
     }
 
   } //!< loop cycle ageing
@@ -176,6 +177,7 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   auto cyc = Cycler(su, pref).setDiagnostic(diagnostic);
   ThroughputData th{};
   Status succ;
+  th_stored = th;
 
   //!< fully discharge the SU at a C/2
   succ = cyc.CC(su->Cap() / 2.0, su->Vmin(), TIME_INF, dt, ndata, th);
@@ -199,7 +201,7 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
 
     try {
       succ = cyc.rest(4 * 3600, dt, ndata, th); //!< 1) 4h rest
-      storeThroughput(th, su);                  // #TODO why do we store this!
+      storeThroughput(1, th, su);               // #TODO why do we store this!
       if (succ != Status::ReachedTimeLimit) {
         std::cout << "Error in useAge when resting 1 in cycle " << i << '\n';
         break;
@@ -207,37 +209,37 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
 
       //!< 2) 1C charge
       cyc.CC(-su->Cap(), su->Vmax(), TIME_INF, dt, ndata, th); //!< #TODO should have a condition.
-      storeThroughput(th, su);
+      storeThroughput(2, th, su);
 
       succ = cyc.rest(1 * 3600, dt, ndata, th); //!< 3) 1h rest
-      storeThroughput(th, su);
+      storeThroughput(3, th, su);
       if (succ != Status::ReachedTimeLimit) {
         std::cout << "Error in useAge when resting2 in cycle " << i << '\n';
         break;
       }
 
       cyc.CC(su->Cap(), su->Vmin(), TIME_INF, dt, ndata, th); //!< 4) 1C discharge
-      storeThroughput(th, su);                                // #TODO sometimes we don't check limits.
+      storeThroughput(4, th, su);                             // #TODO sometimes we don't check limits.
 
       succ = cyc.rest(4 * 3600, dt, ndata, th); //!< 5) 4h rest
-      storeThroughput(th, su);
+      storeThroughput(5, th, su);
       if (succ != Status::ReachedTimeLimit) {
         std::cout << "Error in useAge when resting3 in cycle " << i << '\n';
         break;
       }
 
       cyc.CC(-su->Cap() / 2.0, su->Vmax(), TIME_INF, dt, ndata, th); //!< 6) 0.5C charge
-      storeThroughput(th, su);
+      storeThroughput(6, th, su);
 
       succ = cyc.rest(4 * 3600, dt, ndata, th); //!< 7) 4h rest
-      storeThroughput(th, su);
+      storeThroughput(7, th, su);
       if (succ != Status::ReachedTimeLimit) {
         std::cout << "Error in useAge when resting4 in cycle " << i << '\n';
         break;
       }
 
       succ = cyc.CC(su->Cap() / 2.0, su->Vmin(), TIME_INF, dt, ndata, th); //!< 8) 0.5C discharge
-      storeThroughput(th, su);
+      storeThroughput(8, th, su);
       if (succ != Status::ReachedVoltageLimit) {
         std::cout << "Error in useAge when 0.5C discharge in cycle " << i << '\n';
         break;
@@ -245,7 +247,7 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
 
       //!< 9) 5h rest
       succ = cyc.rest(5 * 3600, dt, ndata, th);
-      storeThroughput(th, su);
+      storeThroughput(9, th, su);
       if (succ != Status::ReachedTimeLimit) {
         std::cout << "Error in useAge when resting5 in cycle " << i << '\n';
         break;
@@ -269,7 +271,7 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
     su->writeData(pref); //!< only do if cycling data. Usage statistics are written by the checkup
 }
 
-void Procedure::storeThroughput(ThroughputData th, StorageUnit *su)
+void Procedure::storeThroughput(int ID, ThroughputData th, StorageUnit *su)
 {
   /*
    * Function to store data of this action in the procedure.
@@ -278,8 +280,7 @@ void Procedure::storeThroughput(ThroughputData th, StorageUnit *su)
    *
    * IN
    * ID 	integer with an indentification of what this step was
-   * Ah	charge throughput of of the cells in this step
-   * Wh 	energy throughput of the cells in this step
+   * th 	cumulative throughput of the cells; what was added since the previous call is the throughput in this step
    * su 	StorageUnit after this step
    */
 
@@ -294,7 +295,8 @@ void Procedure::storeThroughput(ThroughputData th, StorageUnit *su)
     convloss = b->getAndResetConvLosses() / 3600.0;
   }
 
-  throughput.push_back({ th.Ah(), th.Wh(), coolSystemLoad, convloss });
+  throughput.push_back({ ID, th.Ah() - th_stored.Ah(), th.Wh() - th_stored.Wh(), coolSystemLoad, convloss });
+  th_stored = th;
 }
 
 void Procedure::balanceCheckup(StorageUnit *su, bool balance, bool checkup, double Ahtot, int nrCycle, std::string pref)
@@ -626,7 +628,7 @@ void Procedure::writeThroughput(const std::string &SUID, double Ahtot)
 
   //!< Write the data
   for (const auto &th : throughput)
-    file << th.charge << ',' << th.energy << ','
+    file << th.ID << ',' << th.charge << ',' << th.energy << ','
          << th.coolSystemLoad << ',' << th.convloss << '\n';
 
   //!< close the file
diff --git a/src/procedures/Procedure.hpp b/src/procedures/Procedure.hpp
index 6b0231b..51c2d09 100644
--- a/src/procedures/Procedure.hpp
+++ b/src/procedures/Procedure.hpp
@@ -28,7 +28,8 @@ protected:
   double balance_voltage{ 3.65 };
 
   std::vector<ProcedureThroughputData> throughput;
-  void storeThroughput(ThroughputData th, StorageUnit *su);
+  ThroughputData th_stored{}; //!< cumulative throughput at the end of the last action which was stored
+  void storeThroughput(int ID, ThroughputData th, StorageUnit *su);
 
 public:
   Procedure() = default;
diff --git a/src/types/data_storage/cell_data.hpp b/src/types/data_storage/cell_data.hpp
index d74011d..f9f7bf2 100644
--- a/src/types/data_storage/cell_data.hpp
+++ b/src/types/data_storage/cell_data.hpp
@@ -16,7 +16,7 @@ namespace slide {
 
 struct ProcedureThroughputData
 {
-  // int ID;                // #TODO the ID of the (dis)charge Maybe ID in future.
+  int ID;                //!< identification number of the action (the (dis)charge or rest)
   double charge;         //!< the charge throughput of every (dis)charge
   double energy;         //!< the energy throughput of every (dis)charge
   double coolSystemLoad; //!< the energy [Wh] required to run the cooling system of the battery in every cycle
-- 
2.43.0


From 050614bb827f9cbd8500fbc1d11604fba8b1c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 46/60] fix: the use case starts with an empty throughput file
 (the initial discharge is not an action of it)

---
 src/procedures/Procedure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 1a76727..8026362 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -180,7 +180,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   th_stored = th;
 
   //!< fully discharge the SU at a C/2
-  succ = cyc.CC(su->Cap() / 2.0, su->Vmin(), TIME_INF, dt, ndata, th);
+  ThroughputData th_ini{}; //!< not a part of the use case
+  succ = cyc.CC(su->Cap() / 2.0, su->Vmin(), TIME_INF, dt, ndata, th_ini);
 
   if (!isLimitsReached(succ))
     std::cout << "Error in useAge when initially discharging the battery, continue as normal.\n"
-- 
2.43.0


From aafd9b6d76b25bb1019c3a4bbcf05442de251df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 47/60] fix: the last check-up reports the number of cycles
 which were done

---
 src/procedures/Procedure.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 8026362..0903145 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -59,7 +59,8 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   Clock clk{};
 
   //!< loop for cycle ageing
-  for (int i = 0; i < Ncycle; i++) {
+  int i = 0; //!< number of completed cycles
+  for (; i < Ncycle; i++) {
     if (!unitTest)
       std::cout << "SU " << su->getFullID() << " starting loop iteration " << i << " after "
                 << clk << " with V = " << su->V() << ", T = " << K_to_Celsius(su->T())
@@ -124,8 +125,8 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   //!< because usage statistics of cells and modules (or their cooling systems) are not copied over in copy()
   if (!unitTest) std::cout << "Doing a final checkup after " << th.Ah() << " Ah.\n";
   writeThroughput(su->getFullID(), th.Ah());
-  checkUp(su, th.Ah(), Ncycle); //!< check-up of the cells
-  checkMod(su);                 //!< check-up of the modules
+  checkUp(su, th.Ah(), i); //!< check-up of the cells
+  checkMod(su);            //!< check-up of the modules
 
   //!< push a write such that if cells still have cycling data, this is written
   if constexpr (settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData)
@@ -191,7 +192,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   Clock clk;
 
   //!< loop for use case ageing
-  for (unsigned i = 0; i < Ncycle; i++) {
+  unsigned i = 0; //!< number of completed cycles
+  for (; i < Ncycle; i++) {
     if (!unitTest)
       std::cout << "SU " << su->getFullID() << " starting loop iteration " << i << " after "
                 << clk << " with V = " << su->V() << ", T = " << K_to_Celsius(su->T())
@@ -264,8 +266,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   //!< This checkup will write the usage statistics, so it must be called with the actual SU and not with a copy
   //!< because usage statistics of cells and modules (or their cooling systems) are not copied over in copy()
   writeThroughput(su->getFullID(), th.Ah());
-  checkUp(su, th.Ah(), Ncycle); //!< check-up of the cells #TODO if we can use the previous definition of this task_indv
-  checkMod(su);                 //!< check-up of the modules
+  checkUp(su, th.Ah(), i); //!< check-up of the cells #TODO if we can use the previous definition of this task_indv
+  checkMod(su);            //!< check-up of the modules
 
   //!< push a write such that if cells still have cycling data, this is written
   if constexpr (settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData)
-- 
2.43.0


From 0a94310b4cea50676b7bfa3cb8cd7aac12681359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 48/60] fix: write the histogram of the energy used by the AC
 unit (it was that of the heat)

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 0903145..34c832e 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -580,7 +580,7 @@ void Procedure::checkMod(StorageUnit *su)
         file_histograms << GetHistograms(c->HVACdata.tData).Qac << '\n';
 
         file_histograms << "Eac histogram:\n";
-        file_histograms << GetHistograms(c->HVACdata.tData).Qac << '\n';
+        file_histograms << GetHistograms(c->HVACdata.tData).Eac << '\n';
       }
     }
   };
-- 
2.43.0


From 65a479d92720613d1bdc839db55a0bdf698090ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 49/60] fix: a cell refuses states without active material or
 diffusion

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 481e41c..dc9410e 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -437,6 +437,15 @@ bool Cell_SPM::validStates(bool print)
     range = false;
   }
 
+  //!< the active material must exist and lithium must be able to move in it
+  for (const double x : { st.thickp(), st.thickn(), st.ep(), st.en(), st.ap(), st.an(), st.Dp(), st.Dn() })
+    if (x <= 0) {
+      if (verb)
+        std::cerr << "ERROR in Cell_SPM::validState, thickness, volume fraction, effective surface and diffusion constant "
+                  << "of the electrodes must be strictly positive, value is " << x << '\n';
+      range = false;
+    }
+
   const double app = 3 * st.ep() / geo.Rp;
 
   if (std::abs(st.ap() - app) / st.ap() > tol) {
-- 
2.43.0


From adef9abd106b9d4787bcb7cf1f6ed34dbb24ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 50/60] fix: an illegal temperature of a module or battery
 leaves its states as they were

---
 src/modules/Module.cpp | 13 +++++++++++--
 src/system/Battery.cpp | 12 +++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 27c0ab0..53fd78e 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -264,8 +264,17 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
   } //!< end loop to set the cell states
 
   //!< set the module temperature
-  assert(s[0] >= PhyConst::Kelvin); //!< #TODO here we are checking but should we?
-  setT(s[0]);
+  try {
+    setT(s[0]);
+  } catch (int e) {
+    if (verb)
+      std::cerr << "ERROR in Module::setStates, illegal temperature " << s[0] << ". Restoring the old states.\n";
+
+    for (auto &SU : SUs)
+      SU->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+
+    return Status::Invalid_states;
+  }
   s = s.last(s.size() - 1);
 
   //!< check that the cells are valid for this module configuration (same I if series, same V if parallel)
diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index c888b24..ffe9e16 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -105,12 +105,22 @@ void Battery::setBlockDegAndTherm(bool block)
 
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
+  std::vector<double> sorig;
+  cells->getStates(sorig);
+
   const auto status = cells->setStates(s, checkStates, print);
 
   if (isStatusBad(status)) //!< the old states were restored
     return status;
 
-  setT(s[0]); //!< #TODO probably here we need to check?
+  try {
+    setT(s[0]); //!< the cooling system refuses illegal temperatures
+  } catch (int e) {
+    std::span<double> spn_orig{ sorig };
+    cells->setStates(spn_orig, false, print); //!< restore the old states
+
+    return Status::Invalid_states;
+  }
   s = s.last(s.size() - 1);
 
   return status;
-- 
2.43.0


From b2235a9748c08ec29eb2a07d8ad8ebc7d49df583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:15 +0000
Subject: [PATCH 51/60] fix: an open circuit voltage curve with values which
 are not a number is not valid

---
 src/procedures/determine_OCV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 87cf711..02411b1 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -79,7 +79,7 @@ bool validOCV(bool checkRange, slide::XYdata_vv &data)
   for (size_t i = 0; i < data.size(); i++) {
     //!< check for increasing values
     if (i > 0)
-      decreasei = (data.x[i] <= data.x[i - 1]);
+      decreasei = !(data.x[i] > data.x[i - 1]); //!< also if one of them is not a number
     if (decreasei) { //!< print an error message
       std::cerr << "illegal value in deterimineOCV::validOCV: the first column has decreasing or double values at rows "
                 << i - 1 << " and " << i << ".\n"
@@ -88,7 +88,7 @@ bool validOCV(bool checkRange, slide::XYdata_vv &data)
     }
 
     //!< check for realistic voltages
-    if ((data.y[i] < 0) || (data.y[i] > 10)) { //!< print an error message
+    if (!(data.y[i] >= 0 && data.y[i] <= 10)) { //!< print an error message, also if it is not a number
       std::cerr << "illegal value in deterimineOCV::validOCV: the second column has an illegal value of "
                 << data.y[i] << " at row " << i << ". The values have to be between 0 and 10.\n";
       unrealistic = true; //!< we have found an unrealistic value
-- 
2.43.0


From cee4e97bca78e5f3bb68076f5988f0b78e817a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 52/60] fix: the open circuit voltage fit returns the best of
 all levels, not of the last one

---
 src/procedures/determine_OCV.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 02411b1..12752de 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -605,8 +605,10 @@ auto hierarchicalOCVfit(int hmax, slide::FixedData<double> AMp_space, slide::Fix
     slide::run(task_indv, AMp_space.size()); //!< Loop through the search space of AMp
 
     const auto minIndex = std::min_element(err_arr.begin(), err_arr.end()) - err_arr.begin();
-    par = par_arr[minIndex]; //!< Make the output parameters
-    err = err_arr[minIndex];
+    if (h == 0 || err_arr[minIndex] < err) { //!< the search space of this level does not have to contain the best point so far
+      par = par_arr[minIndex];               //!< Make the output parameters
+      err = err_arr[minIndex];
+    }
 
     writeOCVParam(h, par); //!< Print the best fit, and write in a CSV file
 
-- 
2.43.0


From 542e9a6036fdfad7be9f9f0a6582ae0db818d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:48 +0000
Subject: [PATCH 53/60] fix: a voltage which is not a number can not be
 calculated

---
 src/utility/free_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 618f491..915ceaa 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -160,7 +160,7 @@ auto inline check_voltage(double &v, auto &su) //!< Check voltage.
     return Status::V_not_calculated;
   }
 
-  if (v <= 0) {
+  if (!(v > 0)) { //!< negated since a voltage which is not a number compares false
     if (printCrit)
       std::cout << "Error in Cell::setStates when getting the voltage, which is "
                 << v << " restoring the old states.\n";
-- 
2.43.0


From b3f0200447988b54593140248373f8ac89fb9a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:48 +0000
Subject: [PATCH 54/60] fix: states and time steps which are not a number are
 not valid

---
 src/cells/Cell_ECM/Cell_ECM.hpp        |  4 ++--
 src/cells/Cell_SPM/Cell_SPM.cpp        | 18 +++++++++---------
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp |  2 +-
 src/modules/Module_p.cpp               |  2 +-
 src/modules/Module_s.cpp               |  2 +-
 src/utility/free_functions.hpp         |  2 +-
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/cells/Cell_ECM/Cell_ECM.hpp b/src/cells/Cell_ECM/Cell_ECM.hpp
index 0ee305b..bdccdb7 100644
--- a/src/cells/Cell_ECM/Cell_ECM.hpp
+++ b/src/cells/Cell_ECM/Cell_ECM.hpp
@@ -318,7 +318,7 @@ inline bool Cell_ECM<N_RC>::validStates(bool print)
 
   bool range = free::check_SOC(SOC());
 
-  if (T() < Tmin() || T() > Tmax()) {
+  if (!(T() >= Tmin() && T() <= Tmax())) { //!< negated such that a value which is not a number is not valid
     if (verb)
       std::cerr << "ERROR in Cell_ECM::validState, T is outside of the range, "
                 << Tmin() << " <= T <= " << Tmax()
@@ -336,7 +336,7 @@ inline void Cell_ECM<N_RC>::timeStep_CC(double dt, int nstep)
   /*
    *	take a time step of dt seconds while keeping the current constant
    */
-  if (dt < 0) {
+  if (!(dt >= 0)) { //!< negated, a time step which is not a number is not valid either
     if constexpr (settings::printBool::printCrit)
       std::cerr << "ERROR in Cell_ECM::timeStep_CC, the time step dt must be "
                 << "0 or positive, but has value " << dt << '\n';
diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index dc9410e..2959d63 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -402,7 +402,7 @@ bool Cell_SPM::validStates(bool print)
 
   bool range = free::check_SOC(SOC()); //!< check whether SoC in the allowed range
 
-  if (T() < Tmin() || T() > Tmax()) {
+  if (!(T() >= Tmin() && T() <= Tmax())) { //!< all checks are negated such that a value which is not a number is not valid
     if (verb)
       std::cerr << "ERROR in Cell_SPM::validState, T is outside of the range, " << Tmin()
                 << " <= T <= " << Tmax() << ", value is " << T() << '\n';
@@ -424,14 +424,14 @@ bool Cell_SPM::validStates(bool print)
   //!< a negative value might lead to a further decrease in SEI thickness,
   //!< so it will keep getting more and more negative
 
-  if (st.delta() <= 0) {
+  if (!(st.delta() > 0)) {
     std::cerr << "Error in State::validState. The SEI thickness delta is " << st.delta()
               << ", which is too low. Only strictly positive values are allowed.\n";
     range = false;
   }
 
   //!< lost lithium  a value of 0 is allowed (it won't lead to errors in the code)
-  if (st.LLI() < 0) {
+  if (!(st.LLI() >= 0)) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
     range = false;
@@ -439,7 +439,7 @@ bool Cell_SPM::validStates(bool print)
 
   //!< the active material must exist and lithium must be able to move in it
   for (const double x : { st.thickp(), st.thickn(), st.ep(), st.en(), st.ap(), st.an(), st.Dp(), st.Dn() })
-    if (x <= 0) {
+    if (!(x > 0)) {
       if (verb)
         std::cerr << "ERROR in Cell_SPM::validState, thickness, volume fraction, effective surface and diffusion constant "
                   << "of the electrodes must be strictly positive, value is " << x << '\n';
@@ -448,7 +448,7 @@ bool Cell_SPM::validStates(bool print)
 
   const double app = 3 * st.ep() / geo.Rp;
 
-  if (std::abs(st.ap() - app) / st.ap() > tol) {
+  if (!(std::abs(st.ap() - app) / st.ap() <= tol)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
@@ -456,7 +456,7 @@ bool Cell_SPM::validStates(bool print)
 
   const double ann = 3 * st.en() / geo.Rn;
 
-  if (std::abs(st.an() - ann) / st.an() > tol) {
+  if (!(std::abs(st.an() - ann) / st.an() <= tol)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
@@ -467,14 +467,14 @@ bool Cell_SPM::validStates(bool print)
   //!< which might grow CS proportional to the existing CS (so a value of 0 gives 0 increase)
   //!< a negative value might lead to a further decrease in CS, so it will keep getting more
   //!< and more negative
-  if (st.CS() < 0) {
+  if (!(st.CS() >= 0)) {
     std::cerr << "Error in State::validState. The crack surface area is " << st.CS()
               << ", which is too low. It must be strictly positive.\n";
     range = false;
   }
 
   //!< specific resistance of the electrodes (one value for both electrodes combined)
-  if (st.rDCp() < 0 || st.rDCn() < 0 || st.rDCcc() < 0) {
+  if (!(st.rDCp() >= 0 && st.rDCn() >= 0 && st.rDCcc() >= 0)) {
     std::cerr << "Error in State::validState. The specific resistance is "
               << "too low, it must be strictly positive.\n";
     range = false;
@@ -485,7 +485,7 @@ bool Cell_SPM::validStates(bool print)
   //!< so it will keep getting more and more negative
 
   const bool delpl = st.delta_pl() < 0;
-  if (st.delta_pl() < 0) {
+  if (!(st.delta_pl() >= 0)) {
     std::cerr << "Error in State::validState. The thickness of the plated lithium is "
               << st.delta_pl() << ", which is too low. Only positive values are allowed.\n";
     range = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index d85941f..c077cdd 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -260,7 +260,7 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
    */
 
   //!< check the time step is positive
-  if (dt < 0) {
+  if (!(dt >= 0)) { //!< negated, a time step which is not a number is not valid either
     if constexpr (settings::printBool::printCrit)
       std::cerr << "ERROR in Cell_ECM::timeStep_CC, the time step dt must be 0 or positive, but has value " << dt << '\n';
     throw 10;
diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 7d8cd47..8ccda67 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -333,7 +333,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 void Module_p::timeStep_CC(double dt, int nstep)
 {
   // Check if the time step is valid
-  if (dt < 0) {
+  if (!(dt >= 0)) { //!< negated, a time step which is not a number is not valid either
     if constexpr (settings::printBool::printCrit)
       std::cerr << "ERROR in Module_p::timeStep_CC, the time step dt must be 0 or positive, but has value "
                 << dt << '\n';
diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 13b2dc5..dae5563 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -125,7 +125,7 @@ void Module_s::timeStep_CC(double dt, int nstep)
    * 			the top level needs an HVAC system for heat exchange with the environment
    * 			lower-level modules (with a parent module) will get cooling from the coolsystems of their parent so they have a regular coolSystem
    */
-  if (dt < 0) {
+  if (!(dt >= 0)) { //!< negated, a time step which is not a number is not valid either
     if constexpr (settings::printBool::printCrit)
       std::cerr << "ERROR in Module_s::timeStep_CC, the time step dt must be 0 or positive, but has value " << dt << '\n';
     throw 10;
diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 915ceaa..e757d4b 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -105,7 +105,7 @@ auto get_I(const T &SU) { return SU->I(); }
 template <bool Print = settings::printBool::printCrit>
 auto inline check_SOC(double SOCnew, double SOC_min = 0, double SOC_max = 1)
 {
-  if (SOCnew < SOC_min || SOCnew > SOC_max) //!< check that the input argument is valid
+  if (!(SOCnew >= SOC_min && SOCnew <= SOC_max)) //!< check that the input argument is valid
   {
     if constexpr (Print)
       std::cerr << "ERROR in some Cell, illegal input value of SOC: "
-- 
2.43.0


From cdb190ba55d13ddb743e8f4c09376cbc0b7fe99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:48 +0000
Subject: [PATCH 55/60] fix: lithium concentrations which are not a number are
 out of bounds

---
 src/cells/Cell_SPM/Cell_SPM.cpp             | 2 +-
 src/cells/Cell_SPM/Cell_SPM_degradation.cpp | 2 +-
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 2959d63..ab91c05 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -141,7 +141,7 @@ bool Cell_SPM::getCSurf(double &cps, double &cns, bool print)
 
   //!< check if the surface concentration is within the allowed range
   //!< 	0 < cp < Cmaxpos  &&  0 < cn < Cmaxneg
-  const auto flag = !(cps <= 0 || cns <= 0 || cps >= Cmaxpos || cns >= Cmaxneg);
+  const auto flag = cps > 0 && cns > 0 && cps < Cmaxpos && cns < Cmaxneg; //!< also false if a concentration is not a number
 
   return flag;
 }
diff --git a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
index 88c5a4f..d7c191a 100644
--- a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
@@ -663,7 +663,7 @@ void Cell_SPM::getLaresgoitiStress(bool print, double *sigma_n)
   //!< check if the surface concentration is within the allowed range
   //!< 	0 < cp < Cmaxpos
   //!< 	0 < cn < Cmaxneg
-  if (cps < 0 || cns < 0 || cps > Cmaxpos || cns > Cmaxneg) {
+  if (!(cps >= 0 && cns >= 0 && cps <= Cmaxpos && cns <= Cmaxneg)) {
     if (print) {
       std::cerr << "ERROR in Cell_SPM::getLaresgoitiStress: concentration out of bounds. the positive lithium fraction is " << cps / Cmaxpos
                 << " and the negative lithium fraction is " << cns / Cmaxneg << "they should both be between 0 and 1.\n";
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index c077cdd..3bee6b0 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -77,7 +77,7 @@ void Cell_SPM::dState_thermal(bool print, double &dQgen)
   //!< check if the surface concentration is within the allowed range
   //!< 	0 < cp < Cmaxpos
   //!< 	0 < cn < Cmaxneg
-  if (cps <= 0 || cns <= 0 || cps >= Cmaxpos || cns >= Cmaxneg) //!< Do not delete if you cannot ensure zp/zn between 0-1
+  if (!(cps > 0 && cns > 0 && cps < Cmaxpos && cns < Cmaxneg)) //!< Do not delete if you cannot ensure zp/zn between 0-1
   {
     if (print) {
       std::cerr << "ERROR in Cell_SPM::dState: concentration out of bounds. the positive lithium fraction is "
@@ -168,7 +168,7 @@ void Cell_SPM::dState_degradation(bool print, State_SPM &d_state)
   //!< check if the surface concentration is within the allowed range
   //!< 	0 < cp < Cmaxpos
   //!< 	0 < cn < Cmaxneg
-  if (cps <= 0 || cns <= 0 || cps >= Cmaxpos || cns >= Cmaxneg) //!< Do not delete if you cannot ensure zp/zn between 0-1
+  if (!(cps > 0 && cns > 0 && cps < Cmaxpos && cns < Cmaxneg)) //!< Do not delete if you cannot ensure zp/zn between 0-1
   {
     if (print) {
       std::cerr << "ERROR in Cell_SPM::dState: concentration out of bounds. the positive lithium fraction is "
-- 
2.43.0


From 891380ab29a174446ee65db94d1faa6975974d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 56/60] fix: Dai's tangential stress takes the concentration at
 the same radius, not at the mirrored node

---
 src/cells/Cell_SPM/Cell_SPM_degradation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
index d7c191a..85b397b 100644
--- a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
@@ -600,8 +600,8 @@ void Cell_SPM::getDaiStress(double *sigma_p, double *sigma_n, sigma_type &sigma_
       sigma_r_p[i_rev] = 2 * sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (ap - bp_x); //!< ap = int (c x^2, x=0..R), bp = int (c x^2 , x=0..r)
       sigma_r_n[i_rev] = 2 * sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (an - bn_x);
 
-      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - cp[i]);
-      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - cn[i]);
+      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - CP[nch + 1 + i]);
+      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - CN[nch + 1 + i]);
     }
 
     //!< Make the hydrostatic stress sh = (sr + 2sp)/3
-- 
2.43.0


From c5721b3633c11e4f455f68d7c8cf777290217beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 57/60] fix: norms of any order compile and use the magnitudes

---
 src/utility/slide_aux.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/slide_aux.hpp b/src/utility/slide_aux.hpp
index c9a28c6..286dc1d 100644
--- a/src/utility/slide_aux.hpp
+++ b/src/utility/slide_aux.hpp
@@ -46,7 +46,7 @@ double norm_sq(const T &x)
   else {
     double sum = 0;
     for (const auto &x_i : x)
-      sum += std::pow(x_i, N);
+      sum += std::pow(std::abs(x_i), N);
 
     return sum;
   }
@@ -56,7 +56,7 @@ double norm_sq(const T &x)
 template <int N, typename T> //!< Takes vector or array:
 double norm(const T &x)
 {
-  const double norm_square = norm_sq(x);
+  const double norm_square = norm_sq<N>(x);
 
   if (N < 2)
     return norm_square;
-- 
2.43.0


From 4b96ddafb43ebf29ba6a8bf70e43d1804860bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 58/60] fix: all outputs of a candidate can be indexed, not
 only the first one

---
 src/optimisation/MCMC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimisation/MCMC.hpp b/src/optimisation/MCMC.hpp
index 659fca1..01c4d88 100644
--- a/src/optimisation/MCMC.hpp
+++ b/src/optimisation/MCMC.hpp
@@ -68,7 +68,7 @@ struct MCMC_Input
   {
     if (i < N_PARAM)
       return param[i];
-    else if (i == N_PARAM)
+    else if (i < N_PARAM + N_OUTPUT)
       return logR[i - N_PARAM];
     else {
       std::cout << "THIS SHOULD NOT HAPPEN out of bounds for MCMC_Input.\n";
@@ -80,7 +80,7 @@ struct MCMC_Input
   {
     if (i < N_PARAM)
       return param[i];
-    else if (i == N_PARAM)
+    else if (i < N_PARAM + N_OUTPUT)
       return logR[i - N_PARAM];
     else {
       std::cout << "THIS SHOULD NOT HAPPEN out of bounds for MCMC_Input.\n";
-- 
2.43.0


From dc1260380e98153992b1825d82bdfd36171a2514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:12 +0000
Subject: [PATCH 59/60] fix: a candidate with a parameter which is not a number
 is impossible

---
 src/optimisation/MCMC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimisation/MCMC.hpp b/src/optimisation/MCMC.hpp
index 01c4d88..b494ba2 100644
--- a/src/optimisation/MCMC.hpp
+++ b/src/optimisation/MCMC.hpp
@@ -118,7 +118,7 @@ struct Prior
   auto operator()(const Tparam &b)
   {
     for (const auto b_i : b)
-      if (b_i <= 0)
+      if (!(b_i > 0)) //!< negated, a parameter which is not a number is not possible either
         return std::pair(-1e25, false); //!< -Inf
 
     double sum{ 0 };
-- 
2.43.0


From b6cb8b56a5bbcdd52d69d019099a8ae65e31f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 60/60] fix: a lithium fraction which is not a number is
 refused

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ab91c05..4549c32 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -587,12 +587,12 @@ void Cell_SPM::setC(double cp0, double cn0)
   //!< #NOTHOTFUNCTION
   using settings::nch;
 
-  bool pp = (cp0 < 0) || (cp0 > 1);
+  bool pp = !(cp0 >= 0 && cp0 <= 1); //!< also if it is not a number
   if (pp)
     std::cerr << "ERROR in Cell_SPM::setC, illegal input li-fraction for the positive electrode : " << cp0
               << ". The value has to be between 0 and 1.\n";
 
-  bool nn = (cn0 < 0) || (cn0 > 1);
+  bool nn = !(cn0 >= 0 && cn0 <= 1);
   if (nn)
     std::cerr << "ERROR in Cell_SPM::setC, illegal input li-fraction for the negative electrode : " << cn0
               << ". The value has to be between 0 and 1.\n";
-- 
2.43.0

