From eee8e3e0b1f034178de2aacbfbd49306f212da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:13 +0000
Subject: [PATCH 01/35] fix: Particles::is_empty() is true when only holes are
 left

Removing the particles of a list in an order that leaves holes (e.g. the
first before the last one) ends with size() == 0 but is_empty() returned
false, since it looked at the used slots instead of the live particles.
---
 src/include/smash/particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/particles.h b/src/include/smash/particles.h
index 9271058..fc1fdb0 100644
--- a/src/include/smash/particles.h
+++ b/src/include/smash/particles.h
@@ -87,7 +87,7 @@ class Particles {
   size_t size() const { return data_size_ - dirty_.size(); }
 
   /// \return whether the list of particles is empty.
-  bool is_empty() const { return data_size_ == 0; }
+  bool is_empty() const { return size() == 0; }
 
   /**
    *  Returns the time of the computational frame.
-- 
2.43.0


From a7895c0ce74b290bf441b91bc1b22c1aa41eadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:18 +0000
Subject: [PATCH 02/35] fix: round the start of the output clock in its
 internal representation

Resetting the output clock rounded start_time / interval down in floating
point. For start times that are exact multiples of the interval, the ratio
can be slightly too small (0.3 / 0.1 < 3), so that the start time itself
was visited again as first intermediate output time.
---
 src/include/smash/clock.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 0129636..876efa8 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -319,18 +319,22 @@ class UniformClock : public Clock {
    * \param[in] is_output_clock whether this is an output clock or a lab clock
    */
   void reset(double start_time, bool is_output_clock) override {
-    double reset_time;
-    if (is_output_clock) {
-      auto delta_t = convert(timestep_duration_);
-      reset_time = std::floor(start_time / delta_t) * delta_t;
-    } else {
-      reset_time = start_time;
+    Representation reset_time = convert(start_time);
+    if (is_output_clock && timestep_duration_ > 0) {
+      /* Round down to a multiple of the timestep. Do this in the internal
+       * representation, as the floating-point ratio of an exact multiple and
+       * the timestep can be slightly smaller than an integer. */
+      Representation remainder = reset_time % timestep_duration_;
+      if (remainder < 0) {
+        remainder += timestep_duration_;
+      }
+      reset_time -= remainder;
     }
-    if (reset_time < current_time()) {
+    if (convert(reset_time) < current_time()) {
       logg[LClock].debug("Resetting clock from", current_time(), " fm to ",
-                         reset_time, " fm");
+                         convert(reset_time), " fm");
     }
-    reset_time_ = convert(reset_time);
+    reset_time_ = reset_time;
     counter_ = 0;
   }
 
-- 
2.43.0


From 85f4ee56ee9ec7c9479554eb84e61e82b8938bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:20 +0000
Subject: [PATCH 03/35] fix: let the clock return exactly the times it was
 given

The conversion from the internal integer time multiplied with the inexact
resolution, such that the time at the end of a run could be slightly
smaller than the end time (e.g. for 2.2 fm). The time evolution then did
an additional time step of zero duration, in which time derivatives on
lattices are not defined.
---
 src/include/smash/clock.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/clock.h b/src/include/smash/clock.h
index 876efa8..0fecb61 100644
--- a/src/include/smash/clock.h
+++ b/src/include/smash/clock.h
@@ -385,8 +385,6 @@ class UniformClock : public Clock {
   }
 
  private:
-  /// A multiplier transferring the internal integer to the real time.
-  static constexpr double to_double = resolution;
   /// A multiplier transferring the real time to the internal integer.
   static constexpr double from_double = 1. / resolution;
 
@@ -395,7 +393,12 @@ class UniformClock : public Clock {
     return numeric_cast<Representation>(std::round(x * from_double));
   }
   /// Convert an internal int value \p x into the double representation.
-  static double convert(Representation x) { return x * to_double; }
+  static double convert(Representation x) {
+    /* The divisor is a whole number, hence exact, and the division rounds
+     * correctly, so that e.g. the internal value of 0.1 gives 0.1 again. A
+     * multiplication with the inexact resolution does not ensure that. */
+    return x / from_double;
+  }
 
   /// The time step size \f$\Delta t\f$ in \f$10^{-6}\,\mathrm{fm}\f$.
   Representation timestep_duration_ = 0;
-- 
2.43.0


From f5fa3b403f560bc03236162bc47c4ea3f54ff937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:38 +0000
Subject: [PATCH 04/35] fix: respect Decay_Initial_Particles

The option was read from the configuration but never handed to the decay
finder, which always used the default value of the key.
---
 src/include/smash/decayactionsfinder.h | 12 ++++++++----
 src/include/smash/experiment.h         |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/include/smash/decayactionsfinder.h b/src/include/smash/decayactionsfinder.h
index a41ea05..b819ba2 100644
--- a/src/include/smash/decayactionsfinder.h
+++ b/src/include/smash/decayactionsfinder.h
@@ -33,15 +33,20 @@ class DecayActionsFinder : public ActionFinderInterface {
    * \param[in] do_non_strong_decays whether to do non-strong decays at the end
    * \param[in] force_decays_at_end whether to enforce decays at the end
    * \param[in] spin_interaction_type Which type of spin interaction to use
+   * \param[in] decay_initial_particles whether particles are allowed to decay
+   *                                    before their first interaction
    */
   explicit DecayActionsFinder(
       double res_lifetime_factor, bool do_non_strong_decays,
       bool force_decays_at_end,
-      SpinInteractionType spin_interaction_type = SpinInteractionType::Off)
+      SpinInteractionType spin_interaction_type = SpinInteractionType::Off,
+      bool decay_initial_particles =
+          InputKeys::collTerm_decayInitial.default_value())
       : res_lifetime_factor_(res_lifetime_factor),
         do_final_non_strong_decays_(do_non_strong_decays),
         find_final_decays_(force_decays_at_end),
-        spin_interaction_type_(spin_interaction_type) {}
+        spin_interaction_type_(spin_interaction_type),
+        decay_initial_particles_(decay_initial_particles) {}
 
   /**
    * Check the whole particle list for decays.
@@ -92,8 +97,7 @@ class DecayActionsFinder : public ActionFinderInterface {
    * Whether to initial state particles can decay. Useful for analyzing
    * interactions involving one or more resonances.
    */
-  const bool decay_initial_particles_ =
-      InputKeys::collTerm_decayInitial.default_value();
+  const bool decay_initial_particles_;
 };
 
 }  // namespace smash
diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 81a1e93..4adb990 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -1056,7 +1056,8 @@ Experiment<Modus>::Experiment(Configuration &config,
     }
     action_finders_.emplace_back(std::make_unique<DecayActionsFinder>(
         parameters_.res_lifetime_factor, parameters_.do_non_strong_decays,
-        force_decays_, parameters_.spin_interaction_type));
+        force_decays_, parameters_.spin_interaction_type,
+        parameters_.decay_initial_particles));
   }
   bool no_coll = config.take(InputKeys::collTerm_noCollisions);
   if ((parameters_.two_to_one || parameters_.included_2to2.any() ||
-- 
2.43.0


From bee88dc366d21582491f189e0d9b6a534743fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:11 +0000
Subject: [PATCH 05/35] fix: do not force decays of particles without any open
 decay channel

Particles with zero width but with decay modes (J/Psi in the shipped files)
got a decay action without channels at the end of an event if decays of
stable particles were requested, which aborted the whole program.
---
 src/decayactionsfinder.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decayactionsfinder.cc b/src/decayactionsfinder.cc
index b329e22..70385a9 100644
--- a/src/decayactionsfinder.cc
+++ b/src/decayactionsfinder.cc
@@ -87,9 +87,14 @@ ActionList DecayActionsFinder::find_final_actions(
         continue;  // particle cannot decay (not even e.m. or weakly)
       }
 
+      DecayBranchList processes = p.type().get_partial_widths(
+          p.momentum(), p.position().threevec(), WhichDecaymodes::All);
+      if (processes.empty()) {
+        continue;  // no decay channel with a non-vanishing width (e.g. J/ψ)
+      }
+
       auto act = std::make_unique<DecayAction>(p, 0., spin_interaction_type_);
-      act->add_decays(p.type().get_partial_widths(
-          p.momentum(), p.position().threevec(), WhichDecaymodes::All));
+      act->add_decays(std::move(processes));
       actions.emplace_back(std::move(act));
     }
   }
-- 
2.43.0


From 171cc96fc25f697ec36912719052741dc220381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:54 +0000
Subject: [PATCH 06/35] fix: report the parametrized total cross section as
 weight of a scattering

With a parametrized total cross section the outgoing branches are rescaled to
it, but get_total_weight() still reported the sum before the rescaling.
---
 src/scatteraction.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index 8533962..ab321b4 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -322,8 +322,7 @@ void ScatterAction::set_parametrized_total_cross_section(
 }
 
 double ScatterAction::get_total_weight() const {
-  return sum_of_partial_cross_sections_ *
-         incoming_particles_[0].xsec_scaling_factor() *
+  return cross_section() * incoming_particles_[0].xsec_scaling_factor() *
          incoming_particles_[1].xsec_scaling_factor();
 }
 
-- 
2.43.0


From bda20b6a9b32c57abc5c81d5f0cd4e088dfcda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:06 +0000
Subject: [PATCH 07/35] fix: no negative pi+ p total cross section close to
 threshold

The data is extrapolated linearly below its first point, which gave negative
values (down to -0.9 mb) up to 5 MeV above threshold.
---
 src/parametrizations.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parametrizations.cc b/src/parametrizations.cc
index aa97162..2a59275 100644
--- a/src/parametrizations.cc
+++ b/src/parametrizations.cc
@@ -9,6 +9,7 @@
 
 #include "smash/parametrizations.h"
 
+#include <algorithm>
 #include <cmath>
 #include <initializer_list>
 #include <iostream>
@@ -150,7 +151,8 @@ double piplusp_total(double sqrts) {
   }
   const double last = *(PIPLUSP_TOT_SQRTS.end() - 1);
   if (sqrts < last)
-    return (*piplusp_total_interpolation)(sqrts);
+    // the extrapolation below the first data point must not become negative
+    return std::max(0., (*piplusp_total_interpolation)(sqrts));
   else
     return piplusp_high_energy(sqrts * sqrts);
 }
-- 
2.43.0


From 8e2462c3f9c0f0e0e50be3a0ad2a962a33fafdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:40 +0000
Subject: [PATCH 08/35] fix: conserve strangeness in nucleon-nucleus excitation

A nucleon hitting a triton could turn it into a hypertriton (and vice versa),
because only charge and baryon number of the produced nucleus were compared.
---
 src/crosssections.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crosssections.cc b/src/crosssections.cc
index 77c4ba4..238e65d 100644
--- a/src/crosssections.cc
+++ b/src/crosssections.cc
@@ -2472,6 +2472,7 @@ CollisionBranchList CrossSections::dn_xx(
     // No elastic collisions for now, respect conservation laws
     if (produced_nucleus == &type_nucleus ||
         produced_nucleus->charge() != type_nucleus.charge() ||
+        produced_nucleus->strangeness() != type_nucleus.strangeness() ||
         produced_nucleus->baryon_number() != type_nucleus.baryon_number()) {
       continue;
     }
-- 
2.43.0


From c864a4ea3422afa3de9f5c40cb9ac2524fd97597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:42 +0000
Subject: [PATCH 09/35] fix: covariant distance of particles with equal momenta
 but different masses

cov_transverse_distance_sqr() took particles to be at relative rest if
their momenta in the computational frame are equal, which is not the case
if their masses differ.
---
 src/scatteraction.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index ab321b4..e573a24 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -404,25 +404,28 @@ double ScatterAction::cov_transverse_distance_sqr() const {
   ParticleData p_b = incoming_particles_[1];
 
   const FourVector delta_x = p_a.position() - p_b.position();
-  const double mom_diff_sqr =
-      (p_a.momentum().threevec() - p_b.momentum().threevec()).sqr();
   const double x_sqr = delta_x.sqr();
 
-  if (mom_diff_sqr < really_small) {
-    return -x_sqr;
-  }
-
   const double p_a_sqr = p_a.momentum().sqr();
   const double p_b_sqr = p_b.momentum().sqr();
   const double p_a_dot_x = p_a.momentum().Dot(delta_x);
   const double p_b_dot_x = p_b.momentum().Dot(delta_x);
   const double p_a_dot_p_b = p_a.momentum().Dot(p_b.momentum());
+  const double denominator = std::pow(p_a_dot_p_b, 2) - p_a_sqr * p_b_sqr;
+
+  /* The squared momentum difference in the center-of-momentum frame is
+   * 4 * denominator / s. The difference in the computational frame does not
+   * tell whether the particles are at relative rest if their masses differ. */
+  const double mandelstam_s = p_a_sqr + p_b_sqr + 2 * p_a_dot_p_b;
+  if (4 * denominator <= really_small * mandelstam_s) {
+    return -x_sqr;
+  }
 
   const double b_sqr =
       -x_sqr -
       (p_a_sqr * std::pow(p_b_dot_x, 2) + p_b_sqr * std::pow(p_a_dot_x, 2) -
        2 * p_a_dot_p_b * p_a_dot_x * p_b_dot_x) /
-          (std::pow(p_a_dot_p_b, 2) - p_a_sqr * p_b_sqr);
+          denominator;
   return b_sqr > 0.0 ? b_sqr : 0.0;
 }
 
-- 
2.43.0


From 552dc624b3b6c7807d3a4f0086a4a46d8c512c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:24 +0000
Subject: [PATCH 10/35] fix: do not use incompletely written tabulations

A tabulation file that was cut off, e.g. because the program writing it was
killed, was read as a table padded with zeros if its hash was intact.
---
 src/tabulation.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tabulation.cc b/src/tabulation.cc
index 10d49fc..67f1a12 100644
--- a/src/tabulation.cc
+++ b/src/tabulation.cc
@@ -98,7 +98,7 @@ static void swrite(std::ofstream& stream, size_t x) {
  * \return Read value.
  */
 static size_t sread_size(std::ifstream& stream) {
-  uint64_t x;
+  uint64_t x = 0;
   stream.read(reinterpret_cast<char*>(&x), sizeof(x));
   if (x > std::numeric_limits<size_t>::max()) {
     throw std::runtime_error("trying to read vector larger than supported");
@@ -169,13 +169,17 @@ void Tabulation::write(std::ofstream& stream, sha256::Hash hash) const {
 Tabulation Tabulation::from_file(std::ifstream& stream, sha256::Hash hash) {
   sha256::Hash hash_from_stream = sread_hash(stream);
   Tabulation t;
-  if (hash != hash_from_stream) {
+  if (!stream || hash != hash_from_stream) {
     return t;
   }
   t.x_min_ = sread_double(stream);
   t.x_max_ = sread_double(stream);
   t.inv_dx_ = sread_double(stream);
   t.values_ = sread_vector(stream);
+  if (!stream) {
+    // The file is incomplete, e.g. because the program writing it was killed.
+    return Tabulation();
+  }
   return t;
 }
 
-- 
2.43.0


From abc7cdd67177b5a11a0190bcf180b739b7cc57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 11/35] fix: do not give incomplete output files their final
 name

Errors in writing or closing an output file were ignored, so a truncated file
lost its .unfinished suffix. A file that could not be opened led to a crash.
---
 src/file.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/file.cc b/src/file.cc
index 006cada..177e673 100644
--- a/src/file.cc
+++ b/src/file.cc
@@ -9,7 +9,10 @@
 
 #include "smash/file.h"
 
+#include "smash/logging.h"
+
 namespace smash {
+static constexpr int LOutput = LogArea::Output::id;
 
 FilePtr fopen(const std::filesystem::path& filename, const std::string& mode) {
   FilePtr f{std::fopen(filename.c_str(), mode.c_str())};
@@ -22,12 +25,23 @@ RenamingFilePtr::RenamingFilePtr(const std::filesystem::path& filename,
   filename_unfinished_ = filename;
   filename_unfinished_ += ".unfinished";
   file_ = std::fopen(filename_unfinished_.c_str(), mode.c_str());
+  if (file_ == nullptr) {
+    throw std::runtime_error("Could not open output file \"" +
+                             filename_unfinished_.native() +
+                             "\": " + std::strerror(errno));
+  }
 }
 
 FILE* RenamingFilePtr::get() { return file_; }
 
 RenamingFilePtr::~RenamingFilePtr() {
-  std::fclose(file_);
+  const bool writing_failed = std::ferror(file_) != 0;
+  const bool closing_failed = std::fclose(file_) != 0;
+  if (writing_failed || closing_failed) {
+    logg[LOutput].error() << "Writing to " << filename_unfinished_
+                          << " failed, the file is incomplete.";
+    return;
+  }
   // we rename the output file only if we are not unwinding the stack
   // because of an exception
   if (std::uncaught_exceptions() == uncaught_exceptions_) {
-- 
2.43.0


From 300f28096b5e4a2a98631ed7cb32d4d06b383543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 12/35] fix: write numbers with three-digit exponents
 completely in text output

Negative numbers below 1e-99 or above 1e+99 did not fit into the buffer; a null
character ended the particle line, and the following line was joined to it.
---
 src/include/smash/outputformatter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/outputformatter.h b/src/include/smash/outputformatter.h
index b70339b..92db40a 100644
--- a/src/include/smash/outputformatter.h
+++ b/src/include/smash/outputformatter.h
@@ -62,7 +62,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_double(double value) {
-    constexpr size_t kBufferSize = 13;
+    constexpr size_t kBufferSize = 16;
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
@@ -85,7 +85,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_precise_double(double value) {
-    constexpr size_t kBufferSize = 16;
+    constexpr size_t kBufferSize = 20;
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%.9g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
-- 
2.43.0


From e5779679e3ae9a1e3b5a88aeb70059b0d9225873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 13/35] fix: read all events of particle lists

A list without comment lines or with few lines was taken to have no events,
and an end-of-event line as given in the user guide (ending with the word
"end") did not end the event.
---
 src/listmodus.cc | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 25a30f9..80f1407 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -366,7 +366,8 @@ std::string ListModus::next_event_() {
   const std::string needle = " end ";
   std::string line{};
   while (getline(ifs, line)) {
-    if (line.find(needle) == std::string::npos) {
+    // the end marker can be the last word of the line, too
+    if ((line + ' ').find(needle) == std::string::npos) {
       event_string += line + "\n";
     } else {
       break;
@@ -398,19 +399,14 @@ bool ListModus::file_has_events_(std::filesystem::path filepath,
     return false;
   }
   ifs.seekg(last_position);
-  // skip over comment lines, assume that a max. of four consecutive comment
-  // lines can occur
-  int skipped_lines = 0;
-  const int max_comment_lines = 4;
-  while (std::getline(ifs, line) && line[0] != '#' &&
-         skipped_lines++ < max_comment_lines) {
-  }
-
-  if (ifs.eof()) {
-    return false;
+  // there is a further event if anything but empty lines is left
+  while (std::getline(ifs, line)) {
+    if (line.find_first_not_of(" \t\r") != std::string::npos) {
+      return true;
+    }
   }
 
-  if (!ifs.good()) {
+  if (ifs.bad()) {
     if (verbose_) {
       logg[LList].fatal() << "Error while reading "
                           << filepath.filename().native();
@@ -418,8 +414,7 @@ bool ListModus::file_has_events_(std::filesystem::path filepath,
     throw std::runtime_error("Error while reading external particle list");
   }
 
-  ifs.close();
-  return true;
+  return false;
 }
 
 /* In this method, which is called from the constructor only, we "abuse" of the
-- 
2.43.0


From 782807c26fc59de8426e7f8a01ac2e034caeb02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 14/35] fix: allow log levels set in a configuration to be read
 back

The level names are padded with blanks.
---
 src/include/smash/logging.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/logging.h b/src/include/smash/logging.h
index 6d4d548..338d2d0 100644
--- a/src/include/smash/logging.h
+++ b/src/include/smash/logging.h
@@ -11,6 +11,7 @@
 #define SRC_INCLUDE_SMASH_LOGGING_H_
 
 #include <stdexcept>
+#include <string>
 #include <tuple>
 
 #include "einhard.hpp"
@@ -241,7 +242,10 @@ struct convert<einhard::LogLevel> {
    * \return Corresponding YAML node.
    */
   static Node encode(const einhard::LogLevel &x) {
-    return Node{einhard::getLogLevelString(x)};
+    // the level names are padded to the same width
+    std::string level{einhard::getLogLevelString(x)};
+    level.erase(0, level.find_first_not_of(' '));
+    return Node{level};
   }
 
   /**
-- 
2.43.0


From d517eb3d6cf13f90ff42b5fa2399fc194dd05040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:06 +0000
Subject: [PATCH 15/35] fix: do not read past the end of a label list when
 validating a configuration

---
 src/configuration.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 0325c1f..f118e40 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -524,7 +524,8 @@ void adjust_list_of_labels_dealing_with_keys_taken_as_maps(
     std::for_each(list_of_input_key_labels.begin(),
                   list_of_input_key_labels.end(),
                   [&labels](KeyLabels &labels_of_input_key) {
-                    if (std::equal(labels.begin(), labels.end(),
+                    if (labels_of_input_key.size() >= labels.size() &&
+                        std::equal(labels.begin(), labels.end(),
                                    labels_of_input_key.begin(),
                                    labels_of_input_key.begin() + labels.size()))
                       labels_of_input_key = labels;
-- 
2.43.0


From 0c0e4bfa0e2ba75c28d56bc91f34c9c1ef247bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:27 +0000
Subject: [PATCH 16/35] fix: use the length of the box for the automatic
 lattice with ListBox

ListBoxModus did not tell its length, so that the default lattice had a
negative size.
---
 src/include/smash/listmodus.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/smash/listmodus.h b/src/include/smash/listmodus.h
index 0dc348f..26fcbaf 100644
--- a/src/include/smash/listmodus.h
+++ b/src/include/smash/listmodus.h
@@ -346,6 +346,9 @@ class ListBoxModus : public ListModus {
   /// in the case of the ListBoxModus is_box has to be true
   bool is_box() const { return true; }
 
+  /// \copydoc smash::BoxModus::length
+  double length() const { return length_; }
+
   /// \copydoc smash::BoxModus::impose_boundary_conditions
   int impose_boundary_conditions(Particles *particles,
                                  const OutputsList &output_list = {});
-- 
2.43.0


From 1a49502a7b6807ff7395862c027daaeb2585dc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 17/35] fix: advance the output clock once per event

It was advanced at the end of every call of run_time_evolution, so that
calling it several times per event (as a library) skipped outputs.
---
 src/include/smash/experiment.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 4adb990..f97b086 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2658,16 +2658,6 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
     }
   }
 
-  /* Increment once more the output clock in order to have it prepared for the
-   * final_output() call. Once close to the end time, the while-loop above to
-   * produce intermediate output is not entered as the next_output_time() is
-   * never strictly smaller than end_timestep_time (they are usually equal).
-   * Since in the final_output() function the current time of the output clock
-   * is used to produce the output, this has to be incremented before producing
-   * the final output and it makes sense to do it here.
-   */
-  ++(*parameters_.outputclock);
-
   if (pauli_blocker_) {
     logg[LExperiment].info(
         "Interactions: Pauli-blocked/performed = ", total_pauli_blocked_, "/",
@@ -3067,6 +3057,15 @@ void Experiment<Modus>::do_final_interactions() {
 
 template <typename Modus>
 void Experiment<Modus>::final_output() {
+  /* Increment once more the output clock, since its current time is used to
+   * produce the output below. Once close to the end time, the loop producing
+   * intermediate output in run_time_evolution() is not entered as the
+   * next_output_time() is never strictly smaller than the end of the timestep
+   * (they are usually equal). This must not be done in run_time_evolution(),
+   * which might be called several times per event.
+   */
+  ++(*parameters_.outputclock);
+
   /* make sure the experiment actually ran (note: we should compare this
    * to the start time, but we don't know that. Therefore, we check that
    * the time is positive, which should heuristically be the same). */
-- 
2.43.0


From 4ce5a5a465718b46c6bb9cdbceff927f35087522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 18/35] fix: take added and removed particles into account for
 conservation

Particles added or removed from outside via run_time_evolution were reported
as violations of conservation laws.
---
 src/include/smash/experiment.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index f97b086..c50c067 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2461,6 +2461,7 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
           "ensemble is used.");
     }
     const double action_time = parameters_.labclock->current_time();
+    const QuantumNumbers before_adding_and_removing(ensembles_);
     /* Use two if statements. The first one is to check if the particles are
      * valid. Since this might remove all particles, a second if statement is
      * needed to avoid executing the action in that case.*/
@@ -2530,6 +2531,11 @@ void Experiment<Modus>::run_time_evolution(const double t_end,
                ensembles_[0].size());
       }
     }
+    /* What has been added or removed from outside does not violate any
+     * conservation law, i.e. it has to be included in the conserved values. */
+    conserved_initial_ =
+        conserved_initial_ -
+        (before_adding_and_removing - QuantumNumbers(ensembles_));
   }
 
   if (t_end > end_time_) {
-- 
2.43.0


From f01a5918df25ffa042d2de183580e4721211ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 19/35] fix: forget beam momenta of the previous event

With frozen Fermi motion the list of beam momenta grew with every event, and
those of the first event were used for all.
---
 src/include/smash/experiment.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index c50c067..53ecbb4 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2238,8 +2238,9 @@ void Experiment<Modus>::initialize_new_event() {
   /* In the ColliderModus, if Fermi motion is frozen, assign the beam momenta
    * to the nucleons in both the projectile and the target. Every ensemble
    * gets the same beam momenta, so no need to create beam_momenta_ vector
-   * for every ensemble.
+   * for every ensemble. Those of the previous event must not be used again.
    */
+  beam_momentum_.clear();
   if (modus_.is_collider() && modus_.fermi_motion() == FermiMotion::Frozen) {
     for (ParticleData &particle : ensembles_[0]) {
       const double m = particle.effective_mass();
-- 
2.43.0


From 89aa4ea3fcf0e1c882e2a4752193a571a29e1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 20/35] fix: iterate_nearest_neighbors with a position outside
 of the lattice

Memory out of bounds was accessed.
---
 src/include/smash/lattice.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 9445f63..0e90092 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -736,12 +736,19 @@ class RectangularLattice {
   template <typename F>
   void iterate_nearest_neighbors(const ThreeVector& point, F&& func) {
     // get the 3D indices of the cell containing the given point
-    const int ix = numeric_cast<int>(
+    int ix = numeric_cast<int>(
         std::floor((point.x1() - origin_[0]) / cell_sizes_[0]));
-    const int iy = numeric_cast<int>(
+    int iy = numeric_cast<int>(
         std::floor((point.x2() - origin_[1]) / cell_sizes_[1]));
-    const int iz = numeric_cast<int>(
+    int iz = numeric_cast<int>(
         std::floor((point.x3() - origin_[2]) / cell_sizes_[2]));
+    if (periodic_) {
+      ix = positive_modulo(ix, n_cells_[0]);
+      iy = positive_modulo(iy, n_cells_[1]);
+      iz = positive_modulo(iz, n_cells_[2]);
+    } else if (out_of_bounds(ix, iy, iz)) {
+      return;
+    }
 
     logg[LLattice].debug(
         "Iterating over nearest neighbors of the cell at ix = ", ix,
-- 
2.43.0


From 55d692687ee7c73596ee2d96581c34c051281877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 21/35] fix: adapt the storage of a lattice when its number of
 cells changes

---
 src/include/smash/lattice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 0e90092..5db3bfa 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -824,7 +824,6 @@ class RectangularLattice {
           "RectangularLattice::reset_and_resize called "
           "without arguments, lattice was not changed.");
     }
-    reset();
     if (new_length)
       lattice_sizes_ = *new_length;
     if (new_origin)
@@ -835,6 +834,7 @@ class RectangularLattice {
                    lattice_sizes_[1] / n_cells_[1],
                    lattice_sizes_[2] / n_cells_[2]};
     cell_volume_ = cell_sizes_[0] * cell_sizes_[1] * cell_sizes_[2];
+    lattice_.assign(n_cells_[0] * n_cells_[1] * n_cells_[2], T());
   }
 
  protected:
-- 
2.43.0


From 8c804a5012c33c1c9b1fb3c72514f543965be6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 22/35] fix: choice of a rescaled channel with the largest
 random number

The rescaled weights might add up to slightly less than the total, in which
case no channel was found and the program stopped.
---
 src/scatteraction.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index e573a24..8bc70a9 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -58,9 +58,7 @@ void ScatterAction::generate_final_state() {
   logg[LScatterAction].debug("Incoming particles: ", incoming_particles_);
 
   const CollisionBranch *proc = choose_channel<CollisionBranch>(
-      collision_channels_, is_total_parametrized_
-                               ? *parametrized_total_cross_section_
-                               : sum_of_partial_cross_sections_);
+      collision_channels_, sum_of_partial_cross_sections_);
   process_type_ = proc->get_type();
   outgoing_particles_ = proc->particle_list();
   partial_cross_section_ = proc->weight();
@@ -230,8 +228,11 @@ void ScatterAction::rescale_outgoing_branches() {
         *parametrized_total_cross_section_ / sum_of_partial_cross_sections_;
     logg[LScatterAction].debug("Reweighting ", sum_of_partial_cross_sections_,
                                " to ", *parametrized_total_cross_section_);
+    // The sum is needed exactly, i.e. including the rounding of the weights
+    sum_of_partial_cross_sections_ = 0.;
     for (auto &proc : collision_channels_) {
       proc->set_weight(proc->weight() * reweight);
+      sum_of_partial_cross_sections_ += proc->weight();
     }
   }
 }
-- 
2.43.0


From dc22e0a920ee1b2c33846a753d6e9e06bde8e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 23/35] fix: momentum for elastic scattering angles of other
 than nucleons

The Mandelstam s was the square root of an energy squared times four.
---
 src/scatteraction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index 8bc70a9..f5de818 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -534,7 +534,7 @@ void ScatterAction::sample_angles(std::pair<double, double> masses,
        * when nucleon mass is assumed. */
       const double pcm_now = pCM_from_s(mandelstam_s(), mass_in_a, mass_in_b);
       mandelstam_s_new =
-          4. * std::sqrt(pcm_now * pcm_now + nucleon_mass * nucleon_mass);
+          4. * (pcm_now * pcm_now + nucleon_mass * nucleon_mass);
     }
     double bb, a, plab = plab_from_s(mandelstam_s_new);
     if (nn_scattering &&
-- 
2.43.0


From 2c0dd287323d090fbde5a17b9869b9fcdfede6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 24/35] fix: let very slow particles cross the walls of the box

---
 src/wallcrossingaction.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/wallcrossingaction.cc b/src/wallcrossingaction.cc
index 9d031b1..ae7b054 100644
--- a/src/wallcrossingaction.cc
+++ b/src/wallcrossingaction.cc
@@ -9,6 +9,8 @@
 
 #include "smash/wallcrossingaction.h"
 
+#include <cmath>
+
 namespace smash {
 
 ActionList WallCrossActionsFinder::find_actions_in_cell(
@@ -22,10 +24,11 @@ ActionList WallCrossActionsFinder::find_actions_in_cell(
     int i_cross = -1;
     for (int i = 0; i < 3; i++) {
       double t = t_max + 1.;
-      if (v[i] > really_small) {
-        t = (l_[i] - r[i]) / v[i];
-      } else if (v[i] < -really_small) {
-        t = -r[i] / v[i];
+      // Only walls that can be reached are considered: dividing by a tiny
+      // velocity might overflow. Nevertheless, very slow particles do cross.
+      const double distance = v[i] > 0.0 ? l_[i] - r[i] : r[i];
+      if (std::abs(distance) < std::abs(v[i]) * (t_max + 1.)) {
+        t = distance / std::abs(v[i]);
       }
       if (t < time_until_crossing) {
         time_until_crossing = t;
-- 
2.43.0


From a4160fe7dd3c98cbfdc043e0594d843e1a14250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 25/35] fix: do not let collisions of zero probability happen

The random number might be zero.
---
 src/scatteractionsfinder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scatteractionsfinder.cc b/src/scatteractionsfinder.cc
index 45d7143..e3627d3 100644
--- a/src/scatteractionsfinder.cc
+++ b/src/scatteractionsfinder.cc
@@ -336,7 +336,7 @@ ActionPtr ScatterActionsFinder::check_collision_two_part(
 
     // probability criterion
     double random_no = random::uniform(0., 1.);
-    if (random_no > prob) {
+    if (random_no >= prob) {
       return nullptr;
     }
 
@@ -442,7 +442,7 @@ ActionPtr ScatterActionsFinder::check_collision_multi_part(
 
   // 6. Perform probability decisions
   double random_no = random::uniform(0., 1.);
-  if (random_no > prob) {
+  if (random_no >= prob) {
     return nullptr;
   }
 
-- 
2.43.0


From 14518cf5b03d96d3c0ca7f4563c5d86b32819c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 26/35] fix: discrete smearing at the edge of the lattice

The node at the edge is its own neighbor and got the weight of the center
again, so that the density exceeded the charge.
---
 src/include/smash/density.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/include/smash/density.h b/src/include/smash/density.h
index 95b91de..00129ab 100644
--- a/src/include/smash/density.h
+++ b/src/include/smash/density.h
@@ -588,14 +588,15 @@ void update_lattice_with_list_of_particles(RectangularLattice<T> *lat,
       // unweighted contribution to density
       const double common_weight =
           dens_factor / (par.ntest() * par.nensembles() * V_cell);
-      lat->iterate_nearest_neighbors(
-          pos, [&](T &node, int iterated_index, int center_index) {
-            node.add_particle(
-                part, common_weight *
-                          // the contribution to density is weighted depending
-                          // on what node it is added to
-                          (iterated_index == center_index ? big : small));
-          });
+      /* The center node comes first. It might come again as its own neighbor at
+       * the edge of the lattice. */
+      bool is_center = true;
+      lat->iterate_nearest_neighbors(pos, [&](T &node, int, int) {
+        // the contribution to density is weighted depending
+        // on what node it is added to
+        node.add_particle(part, common_weight * (is_center ? big : small));
+        is_center = false;
+      });
     } else if (par.smearing() == SmearingMode::Triangular) {
       // get the radii for triangular smearing
       const std::array<double, 3> triangular_radius = {
-- 
2.43.0


From afce047f402017b4402b5df47164a7e134b6b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:39 +0000
Subject: [PATCH 27/35] fix: use both masses in s_from_Ekin and s_from_plab for
 two beams

---
 src/include/smash/kinematics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 363caf9..0a37617 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -251,7 +251,7 @@ inline double s_from_Ekin(double e_kin, double m_P, double m_T) {
  */
 inline double s_from_Ekin(double e_kin_p, double e_kin_t, double m_p,
                           double m_t) {
-  return s_from_Etot(e_kin_p + m_t, e_kin_t + m_t, m_p, m_t);
+  return s_from_Etot(e_kin_p + m_p, e_kin_t + m_t, m_p, m_t);
 }
 /**
  * Convert p_lab to Mandelstam-s for a fixed-target setup,
@@ -278,7 +278,7 @@ inline double s_from_plab(double plab, double m_P, double m_T) {
 inline double s_from_plab(double plab_p, double plab_t, double m_p,
                           double m_t) {
   return s_from_Etot(std::sqrt(m_p * m_p + plab_p * plab_p),
-                     std::sqrt(m_t * m_t + plab_t * plab_t), plab_p, plab_t);
+                     std::sqrt(m_t * m_t + plab_t * plab_t), m_p, m_t);
 }
 
 }  // namespace smash
-- 
2.43.0


From 49f5afcbb362562f2cad4ffe2d89344a8471363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:39 +0000
Subject: [PATCH 28/35] fix: compute sqrt(s_NN) from total energies if these
 are given per beam

---
 src/collidermodus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index d54d0b4..6e11e33 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -181,7 +181,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
-    sqrt_s_NN_ = std::sqrt(s_from_Ekin(e_tot_p, e_tot_t, mass_a, mass_b));
+    sqrt_s_NN_ = std::sqrt(s_from_Etot(e_tot_p, e_tot_t, mass_a, mass_b));
     energy_input++;
   }
   // Option 6: Kinetic energy per nucleon of _each_ beam
-- 
2.43.0


From ff194d2fbad22640cc6b75a18b2547e6cffe68c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:39 +0000
Subject: [PATCH 29/35] fix: read the last line of a nucleus file without
 newline

---
 src/customnucleus.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index cfff3bb..41b1ab6 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -180,9 +180,8 @@ std::vector<Nucleoncustom> CustomNucleus::readfile(
   std::vector<Nucleoncustom> custom_nucleus;
   // read in only A particles for one nucleus
   for (int i = 0; i < number_of_nucleons_; ++i) {
-    std::getline(infile, line);
     // make sure the stream goes back to the beginning when it hits end of file
-    if (infile.eof()) {
+    if (!std::getline(infile, line)) {
       infile.clear();
       infile.seekg(0, infile.beg);
       std::getline(infile, line);
-- 
2.43.0


From d6e00664d3634de9a45e760d3408e760ce1a287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:39 +0000
Subject: [PATCH 30/35] fix: keep the nucleons of custom nuclei labelled in
 later events

---
 src/customnucleus.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index 41b1ab6..6d8fee1 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -92,6 +92,9 @@ CustomNucleus::CustomNucleus(Configuration& config, int testparticles,
 }
 
 void CustomNucleus::fill_from_list(const std::vector<Nucleoncustom>& vec) {
+  // the nucleons of a new event belong to the same nucleus as the previous ones
+  const BelongsTo label =
+      particles_.empty() ? BelongsTo::Nothing : particles_[0].belongs_to();
   particles_.clear();
   index_ = 0;
   // checking if particle is proton or neutron
@@ -111,6 +114,7 @@ void CustomNucleus::fill_from_list(const std::vector<Nucleoncustom>& vec) {
     double current_mass = current_type.mass();
     particles_.emplace_back(current_type);
     particles_.back().set_4momentum(current_mass, 0.0, 0.0, 0.0);
+    particles_.back().set_belongs_to(label);
   }
 }
 
-- 
2.43.0


From 505f70867818ee0ed7f5e72360041dc504fd1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:00 +0000
Subject: [PATCH 31/35] fix: take unscattered Fermi-frozen nucleons out on the
 hypersurface

---
 src/hypersurfacecrossingfinder.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypersurfacecrossingfinder.cc b/src/hypersurfacecrossingfinder.cc
index 0c23bef..4df63f9 100644
--- a/src/hypersurfacecrossingfinder.cc
+++ b/src/hypersurfacecrossingfinder.cc
@@ -176,8 +176,12 @@ FourVector HyperSurfaceCrossActionsFinder::coordinates_on_hypersurface(
   assert((sol1 >= t1 && sol1 <= t2));
   assert(!(sol2 >= t1 && sol2 <= t2));
 
-  // Propagate to point where hypersurface is crossed
-  const ThreeVector v = pdata_before_propagation.velocity();
+  // Propagate to point where hypersurface is crossed. The velocity is taken
+  // from the propagation itself, because nucleons with frozen Fermi motion do
+  // not move with pdata_before_propagation.velocity() before they interact.
+  const ThreeVector v = (pdata_after_propagation.position().threevec() -
+                         pdata_before_propagation.position().threevec()) /
+                        (t2 - t1);
   const FourVector distance = FourVector(0.0, v * (sol1 - t1));
   FourVector crossing_position = pdata_before_propagation.position() + distance;
   crossing_position.set_x0(sol1);
-- 
2.43.0


From 591e380e71ff38fc7573301d5df57422d1722196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:00 +0000
Subject: [PATCH 32/35] fix: find hypersurface crossings of particles from the
 past light cone

---
 src/hypersurfacecrossingfinder.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypersurfacecrossingfinder.cc b/src/hypersurfacecrossingfinder.cc
index 4df63f9..57fbabe 100644
--- a/src/hypersurfacecrossingfinder.cc
+++ b/src/hypersurfacecrossingfinder.cc
@@ -119,13 +119,14 @@ bool HyperSurfaceCrossActionsFinder::crosses_hypersurface(
     ParticleData &pdata_before_propagation,
     ParticleData &pdata_after_propagation, const double tau) const {
   bool hypersurface_is_crossed = false;
+  // A particle in the past light cone has yet to enter the future light cone
   const bool t_greater_z_before_prop =
-      (std::fabs(pdata_before_propagation.position().x0()) >
+      (pdata_before_propagation.position().x0() >
                std::fabs(pdata_before_propagation.position().x3())
            ? true
            : false);
   const bool t_greater_z_after_prop =
-      (std::fabs(pdata_after_propagation.position().x0()) >
+      (pdata_after_propagation.position().x0() >
                std::fabs(pdata_after_propagation.position().x3())
            ? true
            : false);
-- 
2.43.0


From 15714aaf36b33a9f92ca30f7468594b22f6d9831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:28 +0000
Subject: [PATCH 33/35] fix: start every event with the same fluidization
 lattice

---
 src/collidermodus.cc              | 9 ++++++---
 src/include/smash/collidermodus.h | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 6e11e33..da60fcd 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -337,7 +337,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
       IC_parameters_->fluidizable_processes = modus_cfg.take(
           InputKeys::modi_collider_initialConditions_fluidProcesses);
 
-      double min_size = std::max(min_time, 40.);
+      const double min_size = std::max(min_time, minimum_fluid_side_);
       std::array<double, 3> length{2 * min_size, 2 * min_size, 2 * min_size};
       std::array<double, 3> origin{-min_size, -min_size, -min_size};
       std::array<int, 3> cell_array{cells, cells, cells};
@@ -701,9 +701,12 @@ void ColliderModus::build_fluidization_lattice(
     return;
   }
   const double resizing_rate = 5;
-  double side = fluid_lattice_->lattice_sizes()[0] / 2.;
-  if (t > side) {
+  // The size only depends on time, such that every event starts with the same
+  double side = std::max(IC_parameters_->min_time.value(), minimum_fluid_side_);
+  while (t > side) {
     side += resizing_rate;
+  }
+  if (side != fluid_lattice_->lattice_sizes()[0] / 2.) {
     std::array<double, 3> new_length{2 * side, 2 * side, 2 * side};
     std::array<double, 3> new_origin{-side, -side, -side};
     fluid_lattice_->reset_and_resize(new_length, new_origin, std::nullopt);
diff --git a/src/include/smash/collidermodus.h b/src/include/smash/collidermodus.h
index 4f73577..6504dfd 100644
--- a/src/include/smash/collidermodus.h
+++ b/src/include/smash/collidermodus.h
@@ -311,6 +311,8 @@ class ColliderModus : public ModusDefault {
   double velocity_target_ = 0.0;
   /// Plain Old Data type to hold parameters for initial conditions
   std::unique_ptr<InitialConditionParameters> IC_parameters_;
+  /// Smallest half length of the lattice for dynamic fluidization in fm
+  static constexpr double minimum_fluid_side_ = 40.;
   /// Energy-momentum tensor lattice for dynamic fluidization
   std::unique_ptr<RectangularLattice<EnergyMomentumTensor>> fluid_lattice_ =
       nullptr;
-- 
2.43.0


From 2f0b3eef830c54c965e104d9f561372b550324b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:36 +0000
Subject: [PATCH 34/35] fix: use sigma squared for the smearing kernel at zero

---
 src/collidermodus.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index da60fcd..e689158 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -356,8 +356,8 @@ ColliderModus::ColliderModus(Configuration modus_config,
           << " GeV/fm³ in energy density, between " << min_time << " and "
           << max_time << " fm.";
       IC_parameters_->formation_time_fraction = form_time_fraction;
-      IC_parameters_->smearing_kernel_at_0 =
-          std::pow(2 * M_PI * params.gaussian_sigma, -1.5);
+      IC_parameters_->smearing_kernel_at_0 = std::pow(
+          2 * M_PI * params.gaussian_sigma * params.gaussian_sigma, -1.5);
       IC_parameters_->delay_initial_elastic = modus_cfg.take(
           InputKeys::modi_collider_initialConditions_delayInitialElastic);
     }
-- 
2.43.0


From dd8f0cb6814131c3be470c0b7593607f875939d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:10 +0000
Subject: [PATCH 35/35] fix: reject inelastic collisions of core with corona
 particles

---
 src/include/smash/experiment.h | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/include/smash/experiment.h b/src/include/smash/experiment.h
index 53ecbb4..c25ad54 100644
--- a/src/include/smash/experiment.h
+++ b/src/include/smash/experiment.h
@@ -2272,27 +2272,29 @@ bool Experiment<Modus>::perform_action(Action &action, int i_ensemble,
   const bool core_in_incoming =
       std::any_of(incoming.begin(), incoming.end(),
                   [](const ParticleData &p) { return p.is_core(); });
-  if (core_in_incoming) {
-    if (action.get_type() == ProcessType::FluidizationNoRemoval) {
-      // If the incoming particle is already core, the action should not happen.
-      logg[LExperiment].debug() << "Discarding " << incoming[0].id();
-      return false;
-    } else if (action.get_type() != ProcessType::Elastic) {
-      /* Only elastic collisions can happen between core and corona particles
-       * (1→N can still happen) */
-      const bool all_core_in_incoming =
-          std::all_of(incoming.begin(), incoming.end(),
-                      [](const ParticleData &p) { return p.is_core(); });
-      if (!all_core_in_incoming) {
-        return false;
-      }
-    }
+  if (core_in_incoming &&
+      action.get_type() == ProcessType::FluidizationNoRemoval) {
+    // If the incoming particle is already core, the action should not happen.
+    logg[LExperiment].debug() << "Discarding " << incoming[0].id();
+    return false;
   }
   try {
     action.generate_final_state();
   } catch (Action::StochasticBelowEnergyThreshold &) {
     return false;
   }
+  if (core_in_incoming && action.get_type() != ProcessType::Elastic) {
+    /* Only elastic collisions can happen between core and corona particles
+     * (1→N can still happen). The process of a scattering is only known once
+     * its final state is generated, and the particles might have become core
+     * after the action was found. */
+    const bool all_core_in_incoming =
+        std::all_of(incoming.begin(), incoming.end(),
+                    [](const ParticleData &p) { return p.is_core(); });
+    if (!all_core_in_incoming) {
+      return false;
+    }
+  }
   logg[LExperiment].debug("Process Type is: ", action.get_type());
   if (include_pauli_blocking && pauli_blocker_ &&
       action.is_pauli_blocked(ensembles_, *pauli_blocker_)) {
-- 
2.43.0

