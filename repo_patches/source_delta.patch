From 1847d991c3b07a120ac4668720ec3aa813730657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:21 +0000
Subject: [PATCH 01/23] fix: copying a polynomial shared its owned derivative,
 which was deleted twice

---
 include/models/base/polynomial.h | 11 +++++++++++
 src/base/polynomial.cc           | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index e98feae..d4431b4 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -27,9 +27,20 @@ class Polynomial {
   ///   A list of coefficients.
   explicit Polynomial(const std::vector<double>* coefficients);
 
+  /// \brief Copy constructor.
+  /// \param[in] polynomial
+  ///   The polynomial to copy.
+  Polynomial(const Polynomial& polynomial);
+
   /// \brief Destructor.
   ~Polynomial();
 
+  /// \brief Overloads the copy assignment operator.
+  /// \param[in] polynomial
+  ///   The polynomial to copy.
+  /// \return A reference to the copied polynomial.
+  Polynomial& operator=(const Polynomial& polynomial);
+
   /// \brief Gets the derivative of the polynomial.
   /// \return A polynomial with derivative coefficients.
   Polynomial Derivative() const;
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 45aecaa..7db681c 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -8,6 +8,7 @@
 #include "models/base/point.h"
 
 Polynomial::Polynomial() {
+  coefficients_ = nullptr;
   derivative_ = nullptr;
   is_updated_derivative_ = false;
 }
@@ -18,10 +19,22 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
   is_updated_derivative_ = false;
 }
 
+Polynomial::Polynomial(const Polynomial& polynomial) {
+  coefficients_ = polynomial.coefficients_;
+  derivative_ = nullptr;
+  is_updated_derivative_ = false;
+}
+
 Polynomial::~Polynomial() {
   delete derivative_;
 }
 
+Polynomial& Polynomial::operator=(const Polynomial& polynomial) {
+  // the derivative is owned by each polynomial, so it isn't copied
+  set_coefficients(polynomial.coefficients_);
+  return *this;
+}
+
 Polynomial Polynomial::Derivative() const {
   Polynomial derivative;
 
-- 
2.43.0


From ce1e7635a86d08965a49ad1af103c46950a9a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 02/23] fix: catenary solver forgets a solution its own
 validation rejects

Update() marked the class as updated before the final catenary validation, so a
second query answered with the rejected catenary instead of failing again.
---
 src/transmissionline/catenary_solver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 1270204..ae3fc53 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -485,6 +485,7 @@ bool CatenarySolver::Update() const {
 
   // validates catenary to make sure that H/w is valid
   if (catenary_.Validate(false, nullptr) == false) {
+    is_updated_ = false;
     return false;
   }
 
-- 
2.43.0


From 34b999cdf5a13fffc1d984387ad3ded911784f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:27 +0000
Subject: [PATCH 03/23] fix: attachment equilibrium solver validates without
 spans

Validate() reported the missing catenaries and then dereferenced them in Update().
---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 73296df..ac528e5 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -98,6 +98,11 @@ bool CableAttachmentEquilibriumSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 3e60693835cc700f16bed82707bdaf107c25e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 04/23] fix: an empty alignment has no valid station

---
 src/transmissionline/alignment.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index a712692..593e8c1 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -122,6 +122,11 @@ int Alignment::IndexSegment(const double& station) const {
 }
 
 bool Alignment::IsValidStation(const double& station) const {
+  // checks for an empty alignment
+  if (points_.empty() == true) {
+    return false;
+  }
+
   // gets the first and last alignment points
   const AlignmentPoint& point_front = points_.front();
   const AlignmentPoint& point_back = points_.back();
-- 
2.43.0


From 7f54c289f260c994c722ba72b8a7c0f2a78e869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:48 +0000
Subject: [PATCH 05/23] fix: modified line structures stay inside the alignment

---
 src/transmissionline/transmission_line.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9bda5d8..6da4825 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -308,6 +308,11 @@ bool TransmissionLine::ModifyLineStructure(const int& index,
     return false;
   }
 
+  // checks station
+  if (alignment_.IsValidStation(structure.station()) == false) {
+    return false;
+  }
+
   // gets station from back structure
   double station_back = alignment_.points()->front().station - 1;
   const LineStructure* structure_back = nullptr;
@@ -597,15 +602,11 @@ void TransmissionLine::DeleteInvalidLineCables() {
 }
 
 void TransmissionLine::DeleteInvalidLineStructures() {
-  const double station_min = alignment_.points()->front().station;
-  const double station_max = alignment_.points()->back().station;
-
   // clears line structures outside of alignment
   auto iter = line_structures_.cbegin();
   while (iter != line_structures_.cend()) {
     const LineStructure& line_structure = *iter;
-    const double station = line_structure.station();
-    if ((station < station_min) || (station_max < station)) {
+    if (alignment_.IsValidStation(line_structure.station()) == false) {
       // clears any references to the structure and deletes
       const int index = std::distance(line_structures_.cbegin(), iter);
       DeleteConnectionsFromStructure(index);
-- 
2.43.0


From 51098476422583318587a8615897e6e131818136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:40 +0000
Subject: [PATCH 06/23] fix: no solar radiation while the sun is below the
 horizon

---
 src/thermalrating/solar_radiation_solver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 43dc20d..4902485 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -331,6 +331,12 @@ bool SolarRadiationSolver::SolveAzimuthSolar(
 }
 
 bool SolarRadiationSolver::SolveRadiation() const {
+  // there is no radiation if the sun is below the horizon
+  if (altitude_sun_ <= 0) {
+    radiation_ = 0;
+    return true;
+  }
+
   // calculates the radiation using a polynomial
   // this is the radiation at sea level (elevation = 0)
   Polynomial polynomial;
-- 
2.43.0


From 28386f333d7b990b9bc7642abc7365ceb773d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:40 +0000
Subject: [PATCH 07/23] fix: cable resistance uses the segment that contains
 the temperature

---
 src/thermalrating/thermal_rating_cable.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/thermalrating/thermal_rating_cable.cc b/src/thermalrating/thermal_rating_cable.cc
index 980974b..fc387c7 100644
--- a/src/thermalrating/thermal_rating_cable.cc
+++ b/src/thermalrating/thermal_rating_cable.cc
@@ -84,15 +84,9 @@ double ThermalRatingCable::Resistance(const double& temperature) const {
   // searches list of points for the closest ones to target temp, starting
   // from the lowest
   while (true) {
-    // stops searching if resistance points bound the target temp
-    if ((point_low->temperature < temperature)
-         && (temperature < point_high->temperature)) {
-      break;
-    }
-
-    // stops searching if both resistance points are greater than target temp
-    if ((point_low->temperature < temperature)
-         && (point_high->temperature < temperature)) {
+    // stops searching if resistance points bound the target temp, or if the
+    // target temp is less than all of the resistance points
+    if (temperature <= point_high->temperature) {
       break;
     }
 
-- 
2.43.0


From dd0fced23a8808482ae294a10a62a29628d1f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:40 +0000
Subject: [PATCH 08/23] fix: steady thermal solvers notice new units and
 weather

---
 src/thermalrating/steady_cable_current_solver.cc     | 2 ++
 src/thermalrating/steady_cable_temperature_solver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index a6fb3a2..85ef28b 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -124,11 +124,13 @@ void SteadyCableCurrentSolver::set_temperature_cable(
 
 void SteadyCableCurrentSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableCurrentSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 double SteadyCableCurrentSolver::temperature_cable() const {
diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5ff38a7..5cff6ae 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -127,11 +127,13 @@ void SteadyCableTemperatureSolver::set_current(const double& current) {
 
 void SteadyCableTemperatureSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableTemperatureSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 units::UnitSystem SteadyCableTemperatureSolver::units() const {
-- 
2.43.0


From cde60cd3e2b98537c8d92c4c51e4ddf4617bb944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:40 +0000
Subject: [PATCH 09/23] fix: transmission line coordinates are updated after
 edits and copies

---
 src/transmissionline/transmission_line.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 6da4825..4da8612 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -16,10 +16,8 @@ TransmissionLine::TransmissionLine(const TransmissionLine& that) {
 TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
   // transfers members as-is
   this->alignment_ = that.alignment_;
-  this->is_updated_points_xyz_alignment_ =
-      that.is_updated_points_xyz_alignment_;
-  this->is_updated_points_xyz_structures_ =
-      that.is_updated_points_xyz_structures_;
+  this->is_updated_points_xyz_alignment_ = false;
+  this->is_updated_points_xyz_structures_ = false;
   this->line_cables_ = that.line_cables_;
   this->line_structures_ = that.line_structures_;
   this->origin_ = that.origin_;
@@ -620,7 +618,7 @@ void TransmissionLine::DeleteInvalidLineStructures() {
 
 bool TransmissionLine::IsUpdated() const {
   return (is_updated_points_xyz_alignment_ == true)
-      || (is_updated_points_xyz_structures_ == true);
+      && (is_updated_points_xyz_structures_ == true);
 }
 
 bool TransmissionLine::IsValidLineCableIndex(const int& index) const {
-- 
2.43.0


From e863b2477594ed2031b79ca77af45e6fc6983d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:23 +0000
Subject: [PATCH 10/23] fix: steady cable temperature is refused without a
 valid cable, units or weather

---
 src/thermalrating/steady_cable_temperature_solver.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5cff6ae..d36fb15 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -149,6 +149,11 @@ bool SteadyCableTemperatureSolver::IsUpdated() const {
 }
 
 bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
+  // checks that the weather is available for the starting temperatures
+  if (weather_ == nullptr) {
+    return false;
+  }
+
   // creates a steady-state cable current solver
   SteadyCableCurrentSolver solver;
   solver.set_cable(cable_);
@@ -168,6 +173,11 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
   point_left.x = solver.temperature_cable();
   point_left.y = solver.Current();
 
+  // checks that a current could be solved
+  if (solver.Validate(false, nullptr) == false) {
+    return false;
+  }
+
   // declares and initializes right point
   solver.set_temperature_cable(weather_->temperature_air + 10);
 
-- 
2.43.0


From 4ed6f65c34a11b7287813bb8977b8fd5d0b800bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:24 +0000
Subject: [PATCH 11/23] fix: steady cable temperature search stops at an exact
 match

---
 src/thermalrating/steady_cable_temperature_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index d36fb15..302203a 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -204,6 +204,11 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
     solver.set_temperature_cable(point_current.x);
     point_current.y = solver.Current();
 
+    // stops iterating if the current point matches the target
+    if (point_current.y == target_solution) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From 9f88a77a933f249e964b007e7c10b9f8dc7838e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:07 +0000
Subject: [PATCH 12/23] fix: transient temperatures need a steady starting
 temperature

---
 src/thermalrating/transient_cable_temperature_solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 122d9de..264edfc 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -241,6 +241,9 @@ bool TransientCableTemperatureSolver::UpdateTemperaturePoints() const {
     if (time == 0) {
       // calculates steady-state temperature
       point.temperature = TemperatureSteady(current_steady_);
+      if (point.temperature == -999999) {
+        return false;
+      }
     } else {
       // solves for the heat transfer state
       CableHeatTransferState state = HeatTransferState(current_step_,
-- 
2.43.0


From 36c9e42f3966b78b89a09c45a7988277b534164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:44 +0000
Subject: [PATCH 13/23] fix: sag position corrector rejects missing cable or
 attachment points instead of dereferencing them

---
 src/sagging/cable_sag_position_corrector.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 3c1894e..d98e4ca 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -135,9 +135,18 @@ bool CableSagPositionCorrector::Validate(
   } else {
     if (points_attachment_->size() <= 1) {
       is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Not enough attachment points";
+        messages->push_back(message);
+      }
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -252,6 +261,12 @@ bool CableSagPositionCorrector::UpdateClippedState() const {
   catenaries_clipped_.clear();
   length_clipped_ = -999999;
 
+  // checks that the cable and the attachment points are available
+  if ((linecable_ == nullptr) || (points_attachment_ == nullptr)
+      || (points_attachment_->size() <= 1)) {
+    return false;
+  }
+
   // solves for a catenary for the entire line cable section
   Catenary3d catenary_section = linecable_->CatenaryRulingSpan();
   if (catenary_section.Validate() == false) {
-- 
2.43.0


From 628fc32b9c73e3162cca2c6cd58d700301d6ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 14/23] fix: a stretch state is refused when its temperature or
 polynomial type is

---
 src/sagtension/cable_state.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_state.cc b/src/sagtension/cable_state.cc
index 5d274b3..faad420 100644
--- a/src/sagtension/cable_state.cc
+++ b/src/sagtension/cable_state.cc
@@ -54,7 +54,9 @@ bool CableStretchState::Validate(const bool& is_included_warnings,
   message.title = "CABLE STRETCH STATE";
 
   // validates parent struct
-  CableState::Validate(is_included_warnings, messages);
+  if (CableState::Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates load
   if (load < 0) {
-- 
2.43.0


From c11aacd50d0d651fa16fb3b792f1713e74aec0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 15/23] fix: a structure is refused when one of its attachments
 is

---
 src/transmissionline/structure.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/structure.cc b/src/transmissionline/structure.cc
index c94a8d3..2978f08 100644
--- a/src/transmissionline/structure.cc
+++ b/src/transmissionline/structure.cc
@@ -59,7 +59,9 @@ bool Structure::Validate(
   } else {
     for (auto iter = attachments.cbegin(); iter != attachments.cend(); iter++) {
       const StructureAttachment& attachment = *iter;
-      attachment.Validate(is_included_warnings, messages);
+      if (attachment.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From 441a38875162bb416a4ad24569cfd12a0bc57fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 16/23] fix: an alignment whose points are out of order is
 refused

---
 src/transmissionline/alignment.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index 593e8c1..4387270 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -174,7 +174,11 @@ bool Alignment::Validate(const bool& is_included_warnings,
 
     if ((point_prev != nullptr)
          && (point.station < point_prev->station)) {
-      message.description = "Invalid point sorting";
+      is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Invalid point sorting";
+        messages->push_back(message);
+      }
     }
 
     point_prev = &point;
-- 
2.43.0


From 9b8be89fd9bc606f22c3212bc5dda2a665926a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 17/23] fix: line cable connections without structure or
 hardware are refused

---
 src/transmissionline/line_cable.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index f971f74..6578aa4 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -235,7 +235,9 @@ bool LineCable::Validate(const bool& is_included_warnings,
   }
 
   // validates connections
-  ValidateConnections(is_included_warnings, messages);
+  if (ValidateConnections(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // returns validation status
   return is_valid;
@@ -261,12 +263,26 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
          iter++) {
       const LineCableConnection* connection = &(*iter);
       const LineStructure* structure = connection->line_structure;
-      const Hardware* hardware =
-          structure->hardwares()->at(connection->index_attachment);
-      if ((connection == &connections_.front())
+      const int index = connection->index_attachment;
+
+      // gets hardware, if the structure and the attachment are available
+      const Hardware* hardware = nullptr;
+      if ((structure != nullptr) && (0 <= index)
+          && (index < static_cast<int>(structure->hardwares()->size()))) {
+        hardware = structure->hardwares()->at(index);
+      }
+
+      if (hardware == nullptr) {
+        is_valid = false;
+        message.description = "Line cable connection does not have hardware";
+        if (messages != nullptr) {
+          messages->push_back(message);
+        }
+      } else if ((connection == &connections_.front())
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
+          is_valid = false;
           message.description = "Terminal line cable connection does not have "
                                 "dead-end type hardware";
           if (messages != nullptr) {
@@ -276,6 +292,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
       } else {
         // checks for suspension hardware at all middle connections
         if (hardware->type != Hardware::HardwareType::kSuspension) {
+          is_valid = false;
           message.description = "Interior line cable connection does not have "
                                 "suspension type hardware";
           if (messages != nullptr) {
-- 
2.43.0


From 031143b660b1c9e6abca3a78574820c64f26e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 18/23] fix: a sag-tension component without a base is disabled

---
 src/sagtension/sag_tension_cable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index cbb84b0..92e3fe6 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -5,6 +5,7 @@
 
 SagTensionCableComponent::SagTensionCableComponent() {
   component_base_ = nullptr;
+  is_enabled_ = false;
 }
 
 SagTensionCableComponent::~SagTensionCableComponent() {
-- 
2.43.0


From 3b1588e6d032a0ab77108abb4b61adc60719df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 19/23] fix: the stopwatch sagger refuses missing units

---
 src/sagging/stopwatch_sagger.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/stopwatch_sagger.cc b/src/sagging/stopwatch_sagger.cc
index 5db62e6..c907d93 100644
--- a/src/sagging/stopwatch_sagger.cc
+++ b/src/sagging/stopwatch_sagger.cc
@@ -39,6 +39,15 @@ bool StopwatchSagger::Validate(const bool& is_included_warnings,
     is_valid = false;
   }
 
+  // validates units
+  if (units_ == units::UnitSystem::kNull) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid units";
+      messages->push_back(message);
+    }
+  }
+
   return is_valid;
 }
 
-- 
2.43.0


From 678fbb9651d3d50a7827ce7db6f9d5cd6910d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 20/23] fix: the cable strainer refuses missing elongation
 models

---
 src/sagtension/cable_strainer.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index e00f55b..4f90ab9 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -75,6 +75,23 @@ bool CableStrainer::Validate(const bool& is_included_warnings,
     }
   }
 
+  // validates that elongation models are present
+  if (model_elongation_start_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid start elongation model";
+      messages->push_back(message);
+    }
+  }
+
+  if (model_elongation_finish_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid finish elongation model";
+      messages->push_back(message);
+    }
+  }
+
   // returns if errors are present
   if (is_valid == false) {
     return is_valid;
-- 
2.43.0


From c2e8fcbd2958429e0fd46a86fb1ce9a6454eb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 21/23] fix: the line cable sagger refuses missing design
 constraints

---
 src/sagtension/line_cable_sagger.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3d721ec..f099709 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -96,11 +96,19 @@ bool LineCableSagger::Validate(const bool& is_included_warnings,
   message.title = "LINE CABLE SAGGER";
 
   // validates constraints-design
-  for (auto iter = constraints_design_->cbegin();
-       iter != constraints_design_->cend(); iter++) {
-    const CableConstraint& constraint = *iter;
-    if (constraint.Validate(is_included_warnings, messages) == false) {
-      is_valid = false;
+  if ((constraints_design_ == nullptr) || (constraints_design_->empty())) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid design constraints";
+      messages->push_back(message);
+    }
+  } else {
+    for (auto iter = constraints_design_->cbegin();
+         iter != constraints_design_->cend(); iter++) {
+      const CableConstraint& constraint = *iter;
+      if (constraint.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From efea5306b2381385633f6a97c88e0baa3b551278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 22/23] fix: the cable position locator refuses a missing line
 or cable

---
 src/transmissionline/cable_position_locator.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 55d387b..82f812e 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -280,8 +280,18 @@ bool CablePositionLocator::InitializeConnectionData() const {
 }
 
 bool CablePositionLocator::InitializeContainers() const {
+  // checks that the line and unit weight are present
+  if ((line_ == nullptr) || (weight_unit_ == nullptr)) {
+    return false;
+  }
+
   // gets the line cable
   const std::list<LineCable>* line_cables = line_->line_cables();
+  const int kSizeLineCables = line_cables->size();
+  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
+    return false;
+  }
+
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // caches the number of connections
-- 
2.43.0


From bfbe179a28eec1206f74145389aae9be83d1a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:53 +0000
Subject: [PATCH 23/23] fix: the stretch of a cable component follows the
 polynomial type of its state

---
 src/sagtension/cable_component_elongation_model.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ab4ff25..2ebd82d 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -218,6 +218,8 @@ void CableComponentElongationModel::set_component_cable(
 void CableComponentElongationModel::set_state(const CableState* state) {
   state_ = state;
 
+  // the stretch load depends on the polynomial type of the state
+  is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
 
-- 
2.43.0

