From 3a7555da5dc7e22ecc13ca1dfbee4179a3e678ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 01/46] fix: write the final arc when the file ends with blank
 lines

The end-of-input call re-processes the last line; when that line was blank the
pending arc was never written and the blank line was queued a second time.
---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c68fdc0..17a7297 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -734,7 +734,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     previous_extrusion_rate_ = 0;
   }
 
-  if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
+  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
-- 
2.43.0


From 5d4790ac72f9c653e349868757bc42052369de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 02/46] fix: keep the comments of all moves of an arc when
 blank lines are in between

---
 ArcWelder/arc_welder.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 17a7297..98a0b4e 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -872,7 +872,17 @@ std::string arc_welder::get_comment_for_arc()
 {
   // build a comment string from the commands making up the arc
         // We need to start with the first command entered.
-  int comment_index = unwritten_commands_.count() - (current_arc_.get_num_segments() - 1);
+  // Only moves count as segments, there may be blank lines in between.
+  int comment_index = unwritten_commands_.count();
+  int num_moves = current_arc_.get_num_segments() - 1;
+  while (comment_index > 0 && num_moves > 0)
+  {
+    comment_index--;
+    if (unwritten_commands_[comment_index].is_g0_g1)
+    {
+      num_moves--;
+    }
+  }
   std::string comment;
   for (; comment_index < unwritten_commands_.count(); comment_index++)
   {
-- 
2.43.0


From 1c7c377e5a1be94de2e6943fb3d2b8e696847b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 03/46] fix: include the new point's extrusion when checking
 the maximum gcode length

The length was computed with the extrusion before the point was added, so the
written line could be longer than --max-gcode-length.
---
 ArcWelder/segmented_arc.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index bc17ef8..ebb2407 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -185,23 +185,18 @@ bool segmented_arc::try_add_point(printer_point p)
     point_added = true;
     points_.push_back(p);
     original_shape_length_ += p.distance;
-  }
-  else
-  {
-    // if we're here, we need to see if the new point can be included in the shape
-    point_added = try_add_point_internal_(p);
-  }
-  if (point_added)
-  {
-
     if (points_.count() > 1)
     {
       // Only add the relative distance to the second point on up.
       e_relative_ += p.e_relative;
     }
-    //std::cout << " success - " << points_.count() << " points.\n";
   }
-  else if (points_.count() < get_min_segments() && points_.count() > 1)
+  else
+  {
+    // if we're here, we need to see if the new point can be included in the shape
+    point_added = try_add_point_internal_(p);
+  }
+  if (!point_added && points_.count() < get_min_segments() && points_.count() > 1)
   {
     // If we haven't added a point, and we have exactly min_segments_,
     // pull off the initial arc point and try again
@@ -228,6 +223,9 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   points_.push_back(p);
   double previous_shape_length = original_shape_length_;
   original_shape_length_ += p.distance;
+  // the extrusion of the new point is part of the gcode whose length is checked below
+  double previous_e_relative = e_relative_;
+  e_relative_ += p.e_relative;
   arc original_arc = current_arc_;
   if (arc::try_create_arc(points_, current_arc_, original_shape_length_, max_radius_mm_, resolution_mm_, path_tolerance_percent_, min_arc_segments_, mm_per_arc_segment_, get_xyz_tolerance(), allow_3d_arcs_))
   {
@@ -286,6 +284,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   // Can't create the arc.  Remove the point and remove the previous segment length.
   points_.pop_back();
   original_shape_length_ = previous_shape_length;
+  e_relative_ = previous_e_relative;
   return false;
 }
 
-- 
2.43.0


From 9f72864e4864c93f9fe3cc851a68088d2670e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 04/46] fix: firmware compensation counts segments of
 mm_per_arc_segment

The number of segments in a full circle is its circumference divided by the
segment length, not by the minimum number of segments.
---
 ArcWelder/segmented_arc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index ebb2407..be113d5 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -241,7 +241,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / min_arc_segments_);
+      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-- 
2.43.0


From 1442cb481d9671ffc3466678dc04c9b83aa4e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 05/46] fix: disable firmware compensation for a negative or
 zero mm_per_arc_segment

---
 ArcWelder/segmented_arc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index be113d5..5f55f6c 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -63,7 +63,7 @@ segmented_arc::segmented_arc(
   mm_per_arc_segment_ = mm_per_arc_segment;
   if (mm_per_arc_segment_ < 0 || utilities::is_zero(mm_per_arc_segment_))
   {
-    mm_per_arc_segment = 0;
+    mm_per_arc_segment_ = 0;
   }
   min_arc_segments_ = min_arc_segments;
   if (min_arc_segments_ < 0)
-- 
2.43.0


From 02173279e7d860ffaa26edaa85f319590586dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 06/46] fix: measure the length of source arcs with their I and
 J

The statistics read the number of decimals of I, J and R instead of their values,
and the centre was taken on the wrong side of the start point.
---
 ArcWelder/arc_welder.cpp        | 6 +++---
 GcodeProcessorLib/utilities.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 98a0b4e..8b3dfab 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -471,14 +471,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         switch ((*it).name[0])
         {
         case 'I':
-          i = (*it).double_precision;
+          i = (*it).double_value;
           break;
         case 'J':
-          j = (*it).double_precision;
+          j = (*it).double_value;
           break;
           // Note that the R form isn't fully implemented!
         case 'R':
-          r = (*it).double_precision;
+          r = (*it).double_value;
           break;
         }
       }
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d16f8f4..e386040 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -212,13 +212,13 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
-	double center_x = x1 - i;
-	double center_y = y1 - j;
+	double center_x = x1 + i;
+	double center_y = y1 + j;
 	double radius = utilities::hypot(i, j);
 	double z_dist = z2 - z1;
 	double rt_x = x2 - center_x;
 	double rt_y = y2 - center_y;
-	double angular_travel_total = utilities::atan2(i * rt_y - j * rt_x, i * rt_x + j * rt_y);
+	double angular_travel_total = utilities::atan2(j * rt_x - i * rt_y, -i * rt_x - j * rt_y);
 	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
-- 
2.43.0


From b1fef25eb926e2c3631d49fdf0c94c6806c59057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 07/46] fix: do not overflow an int when counting the digits of
 a number

x * 10^precision exceeds an int for E values above 21475 with 5 decimals, so the
length of the arc command was underestimated.
---
 GcodeProcessorLib/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index e386040..d23cc98 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -402,7 +402,7 @@ int utilities::get_num_digits(int x)
 int utilities::get_num_digits(double x, int precision)
 {
 	return get_num_digits(
-		(int)utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
+		utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
 		/ utilities::pow(10, precision)
 	);
 }
-- 
2.43.0


From cf55ea1e3bab0d065375d791a9d1e07a1da218b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 08/46] fix: do not read another line after processing was
 cancelled

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 8b3dfab..7975cb5 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -273,7 +273,7 @@ arc_welder_results arc_welder::process()
   p_logger_->log(logger_type_, log_levels::DEBUG, "Processing source file.");
 
   bool arc_Welder_comment_added = false;
-  while (std::getline(gcodeFile, line) && continue_processing)
+  while (continue_processing && std::getline(gcodeFile, line))
   {
     lines_processed_++;
     // Check the first line of gcode and see if it = ;FLAVOR:UltiGCode
-- 
2.43.0


From d60515cd7ec5f4130666555cd3c4822812b4a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 09/46] fix: keep the source file when overwriting it was
 cancelled or failed

With equal source and target paths the source was removed and replaced by the
temporary file even after a cancellation or a failed write, and a failed remove
or rename was reported as success.
---
 ArcWelder/arc_welder.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 7975cb5..73cc57e 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -354,9 +354,29 @@ arc_welder_results arc_welder::process()
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Closing source and target files.");
   output_file_.close();
+  // A failed write or close sets the fail bit, a failed read the bad bit (reaching the end of the file does not).
+  const bool write_failed = output_file_.fail();
+  const bool read_failed = gcodeFile.bad();
   gcodeFile.close();
 
-  if (overwrite_source_file)
+  results.success = continue_processing;
+  results.cancelled = !continue_processing;
+  results.progress = final_progress;
+
+  if (write_failed || read_failed)
+  {
+    results.success = false;
+    results.message = write_failed ? "Unable to write the target file." : "Unable to read the source file.";
+    p_logger_->log_exception(logger_type_, results.message);
+  }
+
+  if (overwrite_source_file && !results.success)
+  {
+    // Keep the original source file, the temporary file is incomplete.
+    p_logger_->log(logger_type_, log_levels::DEBUG, "Processing was not successful, keeping the original source file.");
+    std::remove(target_path_.c_str());
+  }
+  else if (overwrite_source_file)
   {
     stream.clear();
     stream.str("");
@@ -364,15 +384,18 @@ arc_welder_results arc_welder::process()
     p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
     stream.clear();
     stream.str("");
-    std::remove(source_path_.c_str());
+    bool replaced = std::remove(source_path_.c_str()) == 0;
     stream << "Renaming temporary file at '" << target_path_ << "' to '" << source_path_ << "'.";
     p_logger_->log(0, log_levels::DEBUG, stream.str());
-    std::rename(target_path_.c_str(), source_path_.c_str());
+    replaced = replaced && std::rename(target_path_.c_str(), source_path_.c_str()) == 0;
+    if (!replaced)
+    {
+      results.success = false;
+      results.message = "Unable to replace the source file.  The result was written to " + target_path_;
+      p_logger_->log_exception(logger_type_, results.message);
+    }
   }
 
-  results.success = continue_processing;
-  results.cancelled = !continue_processing;
-  results.progress = final_progress;
   p_logger_->log(logger_type_, log_levels::DEBUG, "Returning processing results.");
 
   return results;
-- 
2.43.0


From 7951b573d3ecb68482bbb9d0822bf868c4d1d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 10/46] fix: exit with an error status instead of aborting on
 an invalid argument

---
 ArcWelderConsole/ArcWelderConsole.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 50e2b93..6cb7655 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -337,7 +337,7 @@ int main(int argc, char* argv[])
     if (log_level_value == -1)
     {
       // TODO:  Does this work?
-      throw new TCLAP::ArgException("Unknown log level", log_level_arg.toString());
+      throw TCLAP::ArgException("Unknown log level", log_level_arg.toString());
     }
 
   }
@@ -345,7 +345,14 @@ int main(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   
-- 
2.43.0


From f5637c0accbe7c28e3957074eac41f1e18ba462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 11/46] fix: ArcWelder exits with a non-zero status when
 processing fails

---
 ArcWelderConsole/ArcWelderConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 6cb7655..31aa9f2 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -437,7 +437,7 @@ int main(int argc, char* argv[])
   }
 
   delete p_arc_welder;
-  return 0;
+  return results.success ? 0 : 1;
 }
 
 bool on_progress_full(arc_welder_progress progress, logger* p_logger, int logger_type)
-- 
2.43.0


From 171c43cdd9f2ad665f69b2a8c47259628d783b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:12 +0000
Subject: [PATCH 12/46] fix: check the precision options before they are
 narrowed to a byte

---
 ArcWelderConsole/ArcWelderConsole.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 31aa9f2..c75d1c7 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -264,22 +264,22 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("You must also specify a non zero value for the " + mm_per_arc_segment_arg.toString() + " argument.", min_arc_segments_arg.toString());
     }
 
-    if (args.default_xyz_precision < 3)
+    if (default_xyz_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision < 3)
+    if (default_e_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_e_precision_arg.toString());
     }
 
-    if (args.default_xyz_precision > 6)
+    if (default_xyz_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision > 6)
+    if (default_e_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_e_precision_arg.toString());
     }
-- 
2.43.0


From 96c3cd004c0979872b49d3082eb566a9237e5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 13/46] fix: initialize the arc counter and the source position
 of arc_interpolation

---
 ArcWelderInverseProcessor/arc_interpolation.cpp | 1 +
 ArcWelderInverseProcessor/arc_interpolation.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index feb045b..b9dff17 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -77,6 +77,7 @@ gcode_position_args arc_interpolation::get_args_(bool g90_g91_influences_extrude
 
 arc_interpolation::arc_interpolation()
 {
+  p_source_position_ = NULL;
   p_current_firmware_ = NULL;
 }
 
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index e1eed16..aa99329 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -84,7 +84,7 @@ class arc_interpolation
 			std::ofstream output_file_;
 			int lines_processed_ = 0;
 			firmware* p_current_firmware_;
-			int num_arc_commands_;
+			int num_arc_commands_ = 0;
   
 };
 
-- 
2.43.0


From 521552906729184edb6b889345769a1d6c33d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 14/46] fix: the straightener keeps the source file when
 processing failed

---
 .../ArcWelderInverseProcessor.cpp             | 29 +++++++++++++++----
 .../arc_interpolation.cpp                     | 18 ++++++++++--
 ArcWelderInverseProcessor/arc_interpolation.h |  6 +++-
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9a82f76..04ab3d4 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -540,9 +540,8 @@ int run_arc_straightener(int argc, char* argv[])
     if (!utilities::get_temp_file_path_for_file(args.source_path, temp_file_path))
     {
       log_messages << "The source and target path are the same, but a temporary file path could not be created.  Is the path empty?";
-      p_logger->log(0, log_levels::INFO, log_messages.str());
-      log_messages.clear();
-      log_messages.str("");
+      p_logger->log(0, log_levels::ERROR, log_messages.str());
+      return 1;
     }
 
     // create a uuid with a tmp extension for the temporary file
@@ -578,7 +577,16 @@ int run_arc_straightener(int argc, char* argv[])
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
   p_logger->log(0, log_levels::INFO, "Running interpolation...");
-  interpolator.process();
+  if (!interpolator.process())
+  {
+    if (overwrite_source_file)
+    {
+      // Keep the source file, and remove the incomplete temporary file.
+      std::remove(args.target_path.c_str());
+    }
+    p_logger->log(0, log_levels::ERROR, "Interpolation failed.");
+    return 1;
+  }
   p_logger->log(0, log_levels::INFO, "Interpolation Complete.");
 
   log_messages.clear();
@@ -593,10 +601,19 @@ int run_arc_straightener(int argc, char* argv[])
     p_logger->log(0, log_levels::INFO, log_messages.str());
     log_messages.clear();
     log_messages.str("");
-    std::remove(args.source_path.c_str());
+    if (std::remove(args.source_path.c_str()) != 0)
+    {
+      std::remove(args.target_path.c_str());
+      p_logger->log(0, log_levels::ERROR, "The original source file could not be deleted.");
+      return 1;
+    }
     log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << args.source_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
-    std::rename(args.target_path.c_str(), args.source_path.c_str());
+    if (std::rename(args.target_path.c_str(), args.source_path.c_str()) != 0)
+    {
+      p_logger->log(0, log_levels::ERROR, "The temporary file could not be renamed, it contains the processed gcode.");
+      return 1;
+    }
   }
 
   log_messages.clear();
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index b9dff17..3769732 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -115,8 +115,9 @@ arc_interpolation::~arc_interpolation()
  
 }
 
-void arc_interpolation::process()
+bool arc_interpolation::process()
 {
+  bool success = false;
   // Create a stringstream we can use for messaging.
   std::stringstream stream;
 
@@ -250,6 +251,18 @@ void arc_interpolation::process()
 
       }
       output_file_.close();
+      if (gcode_file.bad())
+      {
+        std::cout << "An error occurred while reading the gcode file.\n";
+      }
+      else if (!output_file_)
+      {
+        std::cout << "An error occurred while writing the output file.\n";
+      }
+      else
+      {
+        success = true;
+      }
     }
     else
     {
@@ -268,12 +281,13 @@ void arc_interpolation::process()
 
   stream.clear();
   stream.str("");
-  stream << "Completed file processing\r\n";
+  stream << (success ? "Completed file processing\r\n" : "File processing failed\r\n");
   stream << "\tLines Processed       : " << lines_processed_ << "\r\n";
   stream << "\tArc Commands Processed: " << num_arc_commands_ << "\r\n";
   stream << "\tArc Segments Generated: " << p_current_firmware_->get_num_arc_segments_generated() << "\r\n";
   stream << "\tTotal Seconds         : " << total_seconds << "\r\n";
   std::cout << stream.str();
+  return success;
 }
 
 std::string arc_interpolation::get_firmware_arguments_description(std::string separator, std::string argument_prefix, std::string replacement_string, std::string replacement_value) const
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index aa99329..a7ed35d 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -69,7 +69,11 @@ class arc_interpolation
 		arc_interpolation();
 		arc_interpolation(arc_interpolation_args args);
 		virtual ~arc_interpolation();
-		void process();
+		/// <summary>
+		/// Interpolates the source file into the target file.
+		/// </summary>
+		/// <returns>True if the whole source was read and the whole target was written.</returns>
+		bool process();
 		/// <summary>
 		/// Outputs a string description of the firmware arguments.
 		/// </summary>
-- 
2.43.0


From b61bbb86db66b933e7ebeb4dc15aa7d0e9cbb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 15/46] fix: the straightener reports failure in its exit
 status

---
 .../ArcWelderInverseProcessor.cpp                    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 04ab3d4..4b713be 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -56,12 +56,16 @@
 int main(int argc, char* argv[])
 {
   try {
-    run_arc_straightener(argc, argv);
+    return run_arc_straightener(argc, argv);
   }
-  catch (TCLAP::ArgException *e) {
-    std::cout << (*e).what() << " - " << (*e).typeDescription() << "\n";
+  catch (TCLAP::ArgException& e) {
+    std::cout << e.what() << " - " << e.typeDescription() << "\n";
     return -1;
   }
+  catch (TCLAP::ExitException& e) {
+    // raised after an invalid argument was reported
+    return e.getExitStatus();
+  }
 }
 int run_arc_straightener(int argc, char* argv[])
 {
@@ -370,7 +374,7 @@ int run_arc_straightener(int argc, char* argv[])
     if (!isSourceIncluded)
     {
         std::cout << "The <source> parameter is required.  Please specify a file to convert.";
-        return 0;
+        return 1;
     }
     // Get the value parsed by each arg. 
     args.source_path = source_arg.getValue();
-- 
2.43.0


From 54454872ad7833aa03b5d8265f9f7851d4325056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 16/46] fix: marlin 2 segments are relative to the previous
 segment

---
 ArcWelderInverseProcessor/marlin_2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e70c043..54af4e5 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -604,5 +604,7 @@ bool marlin_2::buffer_line(const float(&cart)[MARLIN_2_XYZE], double fr_mm_s, in
   // Generate the gcode
   gcodes_ += g1_command(target);
 
+  // update the current position
+  set_current_position(target);
   return true;
 }
-- 
2.43.0


From e1818f0ad57e701985fc29bb611293ef3cb50275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 17/46] fix: marlin 2 arcs follow the Z axis to the target

---
 ArcWelderInverseProcessor/marlin_2.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 54af4e5..d01b635 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -307,7 +307,7 @@ void marlin_2::plan_arc_2_0_9_1(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + linear_per_segment;
+    raw[l_axis] += linear_per_segment;
 
     raw[E_AXIS] += extruder_per_segment;
 
@@ -321,14 +321,12 @@ void marlin_2::plan_arc_2_0_9_1(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 
@@ -422,7 +420,7 @@ void marlin_2::plan_arc_2_0_9_2(
   // Millimeters in the arc, assuming it's flat
   const float flat_mm = radius * abs_angular_travel;
   if (flat_mm < 0.001f 
-    && travel_L < 0.001f
+    && utilities::absf(travel_L) < 0.001f
   ) return;
 
   // Feedrate for the move, scaled by the feedrate multiplier
@@ -527,7 +525,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + per_segment_L;
+    raw[l_axis] += per_segment_L;
     raw[E_AXIS] += extruder_per_segment;
 
     apply_motion_limits(raw);
@@ -540,14 +538,12 @@ void marlin_2::plan_arc_2_0_9_2(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 // Marlin Function Defs
-- 
2.43.0


From 779288d700f7b09fe01519f34fd3c6c5bcec2ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 18/46] fix: smoothieware segments are relative to the previous
 segment

---
 ArcWelderInverseProcessor/smoothieware.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 43b8c3c..e1573da 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -302,6 +302,9 @@ bool smoothieware::append_milestone(const float target[], double rate_mm_s)
   // Generate the gcode
   gcodes_ += g1_command(gcode_target);
 
+  // update the current position
+  set_current_position(gcode_target);
+
   return true;
   return true;
 }
-- 
2.43.0


From 8c1108f34c36b03c62389a4df6cf5d3128850d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 19/46] fix: repetier arcs follow the Z axis to the target

---
 ArcWelderInverseProcessor/repetier.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index f3feb61..35c5dc4 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -261,7 +261,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   int8_t count = 0;
 
   // Initialize the linear axis
-  //arc_target[axis_linear] = position[axis_linear];
+  arc_target[Z_AXIS] = position[Z_AXIS];
 
   // Initialize the extruder axis
   arc_target[E_AXIS] = position[E_AXIS]; // * Printer::invAxisStepsPerMM[E_AXIS]; -- Not sure what this does
@@ -291,10 +291,10 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
     arc_target[Y_AXIS] = center_axis1 + r_axis1;
     arc_target[Z_AXIS] += linear_per_segment;
     arc_target[E_AXIS] += extruder_per_segment;
-    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], position[Z_AXIS], arc_target[E_AXIS]);
+    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], arc_target[Z_AXIS], arc_target[E_AXIS]);
   }
   // Ensure last segment arrives at target location.
-  moveToReal(target[X_AXIS], target[Y_AXIS], position[Z_AXIS], target[E_AXIS]);
+  moveToReal(target[X_AXIS], target[Y_AXIS], target[Z_AXIS], target[E_AXIS]);
 }
 
 /// <summary>
@@ -327,7 +327,7 @@ void repetier::arc_1_0_4(float* position, float* target, float* offset, float ra
     //   plan_set_acceleration_manager_enabled(false); // disable acceleration management for the duration of the arc
   float center_axis0 = position[X_AXIS] + offset[X_AXIS];
   float center_axis1 = position[Y_AXIS] + offset[Y_AXIS];
-  //float linear_travel = 0; //target[axis_linear] - position[axis_linear];
+  float linear_travel = target[Z_AXIS] - position[Z_AXIS];
   float extruder_travel = (target[E_AXIS] - position[E_AXIS]); // * Printer::invAxisStepsPerMM[E_AXIS];  -- Not sure what this does...
   float r_axis0 = -offset[0]; // Radius vector from center to current location
   float r_axis1 = -offset[1];
@@ -363,7 +363,7 @@ void repetier::arc_1_0_4(float* position, float* target, float* offset, float ra
     if (invert_feed_rate) { feed_rate *= segments; }
   */
   float theta_per_segment = angular_travel / segments;
-  //float linear_per_segment = linear_travel/segments;
+  float linear_per_segment = linear_travel / segments;
   float extruder_per_segment = extruder_travel / segments;
 
   /* Vector rotation by transformation matrix: r is the original vector, r_T is the rotated vector,
@@ -400,7 +400,7 @@ void repetier::arc_1_0_4(float* position, float* target, float* offset, float ra
   int8_t count = 0;
 
   // Initialize the linear axis
-  //arc_target[axis_linear] = position[axis_linear];
+  arc_target[Z_AXIS] = position[Z_AXIS];
 
   // Initialize the extruder axis
   arc_target[E_AXIS] = position[E_AXIS]; // * Printer::invAxisStepsPerMM[E_AXIS]; -- Not sure what this does
@@ -428,12 +428,12 @@ void repetier::arc_1_0_4(float* position, float* target, float* offset, float ra
     // Update arc_target location
     arc_target[X_AXIS] = center_axis0 + r_axis0;
     arc_target[Y_AXIS] = center_axis1 + r_axis1;
-    //arc_target[axis_linear] += linear_per_segment;
+    arc_target[Z_AXIS] += linear_per_segment;
     arc_target[E_AXIS] += extruder_per_segment;
-    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], position[Z_AXIS], arc_target[E_AXIS]);
+    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], arc_target[Z_AXIS], arc_target[E_AXIS]);
   }
   // Ensure last segment arrives at target location.
-  moveToReal(target[X_AXIS], target[Y_AXIS], position[Z_AXIS], target[E_AXIS]);
+  moveToReal(target[X_AXIS], target[Y_AXIS], target[Z_AXIS], target[E_AXIS]);
 }
 
 
-- 
2.43.0


From 82f07a9c4236c96eda1414b278e731ebf5569e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 20/46] fix: free the firmware and its position array correctly

---
 ArcWelderInverseProcessor/firmware.h   | 2 ++
 ArcWelderInverseProcessor/marlin_1.cpp | 2 +-
 ArcWelderInverseProcessor/marlin_2.cpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index 3113539..d75b573 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -435,6 +435,8 @@ public:
 
   firmware(firmware_arguments args);
 
+  virtual ~firmware() {}
+
   /// <summary>
   /// Generate G1 gcode strings separated by line breaks representing the supplied G2/G3 command.
   /// </summary>
diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index 3bdf86f..a295f73 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -42,7 +42,7 @@ marlin_1::marlin_1(firmware_arguments args) : firmware(args) {
 
 marlin_1::~marlin_1()
 {
-	delete current_position;
+	delete[] current_position;
 }
 
 void marlin_1::apply_arguments()
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index d01b635..4e8928b 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -41,7 +41,7 @@ marlin_2::marlin_2(firmware_arguments args) : firmware(args) {
 
 marlin_2::~marlin_2()
 {
-  delete current_position;
+  delete[] current_position;
 }
 
 void marlin_2::apply_arguments()
-- 
2.43.0


From a3f015c0b9763033068d1df078faada4bf43ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 21/46] fix: initialize num_extruders before it is compared

---
 GcodeProcessorLib/position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GcodeProcessorLib/position.cpp b/GcodeProcessorLib/position.cpp
index d9cd3a8..25575fd 100644
--- a/GcodeProcessorLib/position.cpp
+++ b/GcodeProcessorLib/position.cpp
@@ -214,6 +214,7 @@ position::position(int extruder_count)
 	is_in_bounds = true;
 	current_tool = 0;
 	p_extruders = NULL;
+	num_extruders = 0;
 	set_num_extruders(extruder_count);
 	
 }
-- 
2.43.0


From 761e0001761c6051a589a09cd1f984ca2e56ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 22/46] fix: push_back of a circular buffer adds one item

---
 GcodeProcessorLib/circular_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 645234e..936aaf8 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -118,11 +118,15 @@ public:
 	{
 		int pos = get_index_position(count_);
 		items_[pos] = object;
-		count_++;
 		if (count_ != max_size_)
 		{
 			count_++;
 		}
+		else
+		{
+			// the buffer is full, the first item was replaced
+			front_index_ = get_index_position(1);
+		}
 	}
 
 	T& pop_front()
-- 
2.43.0


From 65fd18a5cb2c602fa337e31dda6369e42729306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 23/46] fix: keep the order of the items when a buffer is
 copied

---
 GcodeProcessorLib/array_list.h      | 1 -
 GcodeProcessorLib/circular_buffer.h | 1 -
 2 files changed, 2 deletions(-)

diff --git a/GcodeProcessorLib/array_list.h b/GcodeProcessorLib/array_list.h
index 1befaa6..89b3dfa 100644
--- a/GcodeProcessorLib/array_list.h
+++ b/GcodeProcessorLib/array_list.h
@@ -179,7 +179,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 936aaf8..47dcb99 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -197,7 +197,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From 9931556322521b55fbb2545177667b81987136c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 24/46] fix: do not write past the end of the number formatting
 buffer

---
 GcodeProcessorLib/fpconv.cpp    | 18 +++++++-----------
 GcodeProcessorLib/fpconv.h      |  6 +++++-
 GcodeProcessorLib/utilities.cpp |  3 +--
 GcodeProcessorLib/utilities.h   |  2 +-
 4 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/GcodeProcessorLib/fpconv.cpp b/GcodeProcessorLib/fpconv.cpp
index 9c2b8ee..80052d1 100644
--- a/GcodeProcessorLib/fpconv.cpp
+++ b/GcodeProcessorLib/fpconv.cpp
@@ -334,10 +334,9 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 
 static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, bool neg, unsigned char precision)
 {
-  int exp = absv(K + ndigits - 1);
-  unsigned char length = 0;
+  int length = 0;
   /* write plain integer */
-  if (K >= 0 && (exp < (ndigits + 7))) {
+  if (K >= 0) {
     memcpy(dest, digits, ndigits);
     memset(dest + ndigits, '0', K);
     // pad with 0s if we need to 
@@ -346,11 +345,8 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
     if (precision > 0)
     {
       dest[length++] = '.';
-      for (; precision > 0; precision--)
-      {
-        dest[length] = '0';
-        length++;
-      }
+      memset(dest + length, '0', precision);
+      length += precision;
     }
     return length;
   }
@@ -360,7 +356,7 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   int offset = ndigits - absv(K);
   
   // round the number in dest
-  unsigned char terminator_location;
+  int terminator_location;
   /* fp < 1.0 -> write leading zero */
   if (offset <= 0) {
     offset = -offset;
@@ -391,7 +387,7 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   }
   
   
-  if (terminator_location < 24)
+  if (terminator_location < FPCONV_MAX_LENGTH)
   {
     // Get the character at the terminator location
     // we will use this to determine if we need to round
@@ -502,7 +498,7 @@ int fpconv_dtoa(double d, char dest[24])
   return str_len;
 }
 
-int fpconv_dtos(double d, char dest[24], unsigned char precision)
+int fpconv_dtos(double d, char dest[FPCONV_MAX_LENGTH], unsigned char precision)
 {
   char digits[18];
 
diff --git a/GcodeProcessorLib/fpconv.h b/GcodeProcessorLib/fpconv.h
index 29af997..28af1c2 100644
--- a/GcodeProcessorLib/fpconv.h
+++ b/GcodeProcessorLib/fpconv.h
@@ -80,8 +80,12 @@ WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
  *
  */
 
+/* The longest number written by fpconv_dtos: a sign, 309 digits, a point and 255 decimals.
+* The number of leading zeros, digits and decimals of a small number is smaller. */
+#define FPCONV_MAX_LENGTH 600
+
 int fpconv_dtoa(double fp, char dest[24]);
-int fpconv_dtos(double fp, char dest[24], unsigned char precision);
+int fpconv_dtos(double fp, char dest[FPCONV_MAX_LENGTH], unsigned char precision);
 
 #endif
 
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d23cc98..70971ca 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -679,8 +679,7 @@ void* utilities::memcpy(void* dest, const void* src, size_t n)
 
 std::string utilities::dtos(double x, unsigned char precision)
 {
-	static char buffer[FPCONV_BUFFER_LENGTH];
-	char* p = buffer;
+	char buffer[FPCONV_BUFFER_LENGTH];
 	buffer[fpconv_dtos(x, buffer, precision)] = '\0';
 	/* This is code that can be used to compare the output of the
 		 modified fpconv_dtos function to the ofstream output
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f1f4ede..8ce9dca 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -33,7 +33,7 @@
 #include <cstring>
 #include "fpconv.h"
 
-#define FPCONV_BUFFER_LENGTH 25
+#define FPCONV_BUFFER_LENGTH (FPCONV_MAX_LENGTH + 1)
 // Had to increase the zero tolerance because prusa slicer doesn't always 
 // retract enough while wiping.
 #define ZERO_TOLERANCE 0.000005
-- 
2.43.0


From fa010a52c0ed8e762b91275ce22e27f6f1071ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 25/46] fix: temporary files never replace an existing file

---
 GcodeProcessorLib/utilities.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 70971ca..4d1a17b 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -21,6 +21,7 @@
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "utilities.h"
+#include <random>
 
 namespace utilities {
 	// Box Drawing Consts
@@ -455,10 +456,12 @@ bool utilities::get_file_path(const std::string& file_path, std::string& path)
 
 std::string utilities::create_uuid() {
 	std::string res;
+	// rand() is not seeded and returns the same numbers in every process
+	std::random_device device;
 	for (int i = 0; i < 16; i++) {
 		if (GUID_DASHES[i]) res += "-";
-		res += GUID_RANGE[(int)(rand() % 16)];
-		res += GUID_RANGE[(int)(rand() % 16)];
+		res += GUID_RANGE[(int)(device() % 16)];
+		res += GUID_RANGE[(int)(device() % 16)];
 	}
 	return res;
 }
@@ -470,9 +473,13 @@ bool utilities::get_temp_file_path_for_file(const std::string& file_path, std::s
 	{
 		return false;
 	}
-	temp_file_path = temp_file_path;
-	temp_file_path += create_uuid();
-	temp_file_path += ".tmp";
+	const std::string directory = temp_file_path;
+	do
+	{
+		temp_file_path = directory;
+		temp_file_path += create_uuid();
+		temp_file_path += ".tmp";
+	} while (does_file_exist(temp_file_path));
 	return true;
 }
 
-- 
2.43.0


From 96a5d47881f37d5a698e3525b38b6c9d2e6fb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 26/46] fix: initialize all values of a command parameter

---
 GcodeProcessorLib/parsed_command_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/parsed_command_parameter.cpp b/GcodeProcessorLib/parsed_command_parameter.cpp
index a2bd331..ad0a3c6 100644
--- a/GcodeProcessorLib/parsed_command_parameter.cpp
+++ b/GcodeProcessorLib/parsed_command_parameter.cpp
@@ -34,17 +34,17 @@ parsed_command_parameter::parsed_command_parameter()
 	string_value = "";
 }
 
-parsed_command_parameter::parsed_command_parameter(const std::string name, double value, unsigned char precision) : name(name), double_value(value), double_precision(precision)
+parsed_command_parameter::parsed_command_parameter(const std::string name, double value, unsigned char precision) : name(name), double_value(value), double_precision(precision), unsigned_long_value(0)
 {
 	value_type = 'F';
 }
 
-parsed_command_parameter::parsed_command_parameter(const std::string name, const std::string value) : name(name), string_value(value), double_precision(0)
+parsed_command_parameter::parsed_command_parameter(const std::string name, const std::string value) : name(name), double_value(0), double_precision(0), unsigned_long_value(0), string_value(value)
 {
 	value_type = 'S';
 }
 
-parsed_command_parameter::parsed_command_parameter(const std::string name, const unsigned long value) : name(name), unsigned_long_value(value), double_precision(0)
+parsed_command_parameter::parsed_command_parameter(const std::string name, const unsigned long value) : name(name), double_value(0), double_precision(0), unsigned_long_value(value)
 {
 	value_type = 'U';
 }
-- 
2.43.0


From 543ebcafa632b9cf830015aaa23a5e8a5b3d3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:37 +0000
Subject: [PATCH 27/46] fix: G92 before homing sets the position behind the
 hotend offset

---
 GcodeProcessorLib/gcode_position.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3c60868..9f5d862 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1225,7 +1225,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->x_offset = pos->x - x + pos->x_firmware_offset;
 			else
 			{
-				pos->x = x;
+				pos->x = x - pos->x_firmware_offset;
 				pos->x_offset = 0;
 				pos->x_null = false;
 			}
@@ -1236,7 +1236,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->y_offset = pos->y - y + pos->y_firmware_offset;
 			else
 			{
-				pos->y = y;
+				pos->y = y - pos->y_firmware_offset;
 				pos->y_offset = 0;
 				pos->y_null = false;
 			}
@@ -1247,7 +1247,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->z_offset = pos->z - z + pos->z_firmware_offset;
 			else
 			{
-				pos->z = z;
+				pos->z = z - pos->z_firmware_offset;
 				pos->z_offset = 0;
 				pos->z_null = false;
 			}
-- 
2.43.0


From ee3beabed8647a276a8b1353fc2eb34989e45769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 28/46] fix: log a missing python parameter as a warning

The logger type and the log level were exchanged, so that the message was
lost and a python error was left set.
---
 PyArcWelder/py_arc_welder.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 65dabc9..7a85a7d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -254,13 +254,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     if (args.default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
     else if (args.default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
   }
@@ -271,20 +271,20 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_default_e_precision == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'default_e_precision parameter' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
     args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
     if (args.default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
     else if (args.default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
   }
@@ -295,7 +295,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_extrusion_rate_variance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'extrusion_rate_variance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -312,7 +312,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_path_tolerance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'path_tolerance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -329,7 +329,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_radius_mm == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_radius_mm' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -346,7 +346,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_mm_per_arc_segment == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'mm_per_arc_segment' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -363,7 +363,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_min_arc_segments == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'min_arc_segments' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -380,7 +380,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_gcode_length == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_gcode_length' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -397,7 +397,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_3d_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_3d_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -410,7 +410,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_travel_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_travel_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -424,7 +424,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_g90_g91_influences_extruder == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'g90_g91_influences_extruder' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -437,7 +437,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_log_level == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'log_level' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
-- 
2.43.0


From 7e8a80171734c8a00b14faf34abdcd8e7cd09db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 29/46] fix: refuse python parameters of the wrong type instead
 of crashing

---
 PyArcWelder/py_arc_welder.cpp | 40 ++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 7a85a7d..ec8ec0a 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -163,6 +163,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     "Parsing GCode Conversion Args."
   );
 
+  if (!PyDict_Check(py_args))
+  {
+    std::string message = "ParseArgs - The args are not a dictionary.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+
 #pragma region Required_Arguments
 #pragma region guid
   // Extract the job guid
@@ -173,7 +180,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  const char* guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  if (guid == NULL)
+  {
+    std::string message = "ParseArgs - The 'guid' parameter is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.guid = guid;
 #pragma endregion guid
 #pragma region source_path
   // Extract the source file path
@@ -184,7 +198,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  const char* source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  if (source_path == NULL)
+  {
+    std::string message = "ParseArgs - The 'source_path' parameter is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.source_path = source_path;
 #pragma endregion source_path
 #pragma region target_path
   // Extract the target file path
@@ -195,7 +216,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  const char* target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  if (target_path == NULL)
+  {
+    std::string message = "ParseArgs - The 'target_path' parameter is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.target_path = target_path;
 #pragma endregion target_path
 #pragma region on_progress_received
   // on_progress_received
@@ -206,6 +234,12 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
+  if (!PyCallable_Check(py_on_progress_received))
+  {
+    std::string message = "ParseArgs - The 'on_progress_received' parameter is not callable.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
   // need to incref this so it doesn't vanish later (borrowed reference we are saving)
   Py_XINCREF(py_on_progress_received);
   *py_progress_callback = py_on_progress_received;
-- 
2.43.0


From 8ac02077e193fc163d0b46fa763508bef22eb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 30/46] fix: check the python precision parameters before they
 are narrowed to a byte

---
 PyArcWelder/py_arc_welder.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index ec8ec0a..2d83863 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -284,19 +284,23 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_xyz_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
-    if (args.default_xyz_precision < 3)
+    double default_xyz_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    if (default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
-    else if (args.default_xyz_precision > 6)
+    else if (default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
+    else
+    {
+      args.default_xyz_precision = (unsigned char)default_xyz_precision;
+    }
   }
 #pragma endregion default_xyz_precision
 #pragma region default_e_precision
@@ -308,19 +312,23 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
-    if (args.default_e_precision < 3)
+    double default_e_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    if (default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
-    else if (args.default_e_precision > 6)
+    else if (default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
+    else
+    {
+      args.default_e_precision = (unsigned char)default_e_precision;
+    }
   }
 #pragma endregion default_e_precision
 #pragma region extrusion_rate_variance_percent
-- 
2.43.0


From cf28cbec2aeaa160cfbc74b51b7b08983bb729e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 31/46] fix: do not leave the exception of a progress callback
 set

---
 PyArcWelder/py_arc_welder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 2d83863..5a142ee 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -137,6 +137,8 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   bool continue_processing;
   if (pContinueProcessing == NULL)
   {
+    // The callback raised an exception.  Report it so that it isn't left set, then continue.
+    PyErr_Print();
     // no return value was supply, assume true, but without decrefing pContinueProcessing
     continue_processing = true;
   }
-- 
2.43.0


From 8db40b589cddb98ae437be214230331a34a99c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 32/46] fix: release the references of the python progress

---
 PyArcWelder/py_arc_welder.cpp           | 14 ++++++++++++++
 PyArcWelder/py_arc_welder_extension.cpp |  3 ++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 5a142ee..620dc32 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -41,12 +41,19 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   }
   PyObject* pyMessage = gcode_arc_converter::PyUnicode_SafeFromString(segment_statistics);
   if (pyMessage == NULL)
+  {
+    Py_DECREF(pyGuid);
     return NULL;
+  }
   double total_count_reduction_percent = progress.segment_statistics.get_total_count_reduction_percent();
   
   PyObject* pyTravelMessage = gcode_arc_converter::PyUnicode_SafeFromString(segment_travel_statistics);
   if (pyTravelMessage == NULL)
+  {
+    Py_DECREF(pyGuid);
+    Py_DECREF(pyMessage);
     return NULL;
+  }
   double total_travel_count_reduction_percent = progress.travel_statistics.get_total_count_reduction_percent();
   PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
     "percent_complete",
@@ -104,6 +111,9 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
 
   if (py_progress == NULL)
   {
+    Py_DECREF(pyGuid);
+    Py_DECREF(pyMessage);
+    Py_DECREF(pyTravelMessage);
     return NULL;
   }
   // Due to a CRAZY issue, I have to add this item after building the py_progress object,
@@ -112,6 +122,10 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   PyDict_SetItemString(py_progress, "segment_statistics_text", pyMessage);
   PyDict_SetItemString(py_progress, "segment_travel_statistics_text", pyTravelMessage);
   PyDict_SetItemString(py_progress, "guid", pyGuid);
+  // PyDict_SetItemString does not steal the references
+  Py_DECREF(pyGuid);
+  Py_DECREF(pyMessage);
+  Py_DECREF(pyTravelMessage);
   return py_progress;
 }
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 4ad2518..9004459 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -210,7 +210,7 @@ extern "C"
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
 		if (p_progress == NULL)
-			p_progress = Py_None;
+			return NULL;
 
 		PyObject* p_results = Py_BuildValue(
 			"{s:i,s:i,s:s,s:O}",
@@ -223,6 +223,7 @@ extern "C"
 			"progress",
 			p_progress
 		);
+		Py_DECREF(p_progress);
 		return p_results;
 	}
 }
-- 
2.43.0


From 09770abf3f4ae257b03f70ab612d54121f849cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 33/46] fix: file sizes above 2 GB are passed to python
 unchanged

---
 PyArcWelder/py_arc_welder.cpp           | 2 +-
 PyArcWelder/py_arc_welder_extension.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 620dc32..e560b3d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -55,7 +55,7 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
     return NULL;
   }
   double total_travel_count_reduction_percent = progress.travel_statistics.get_total_count_reduction_percent();
-  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
+  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:l,s:l,s:l,s:d,s:d,s:d,s:d,s:i,s:i,s:d,s:d,s:d,s:i,s:i,s:d}",
     "percent_complete",
     progress.percent_complete,												//1
     "seconds_elapsed",
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 9004459..58b6464 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -215,9 +215,9 @@ extern "C"
 		PyObject* p_results = Py_BuildValue(
 			"{s:i,s:i,s:s,s:O}",
 			"success",
-			(long int)(results.success ? 1 : 0),
+			results.success ? 1 : 0,
 			"is_cancelled",
-			(long int)(results.cancelled ? 1 : 0),
+			results.cancelled ? 1 : 0,
 			"message",
 			results.message.c_str(),
 			"progress",
-- 
2.43.0


From f92c7e10e6a5771188eace8eda4e0f1321a8452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 34/46] fix: release the GIL state when the logging
 configurator arguments cannot be created

---
 PyArcWelder/py_logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index da7b935..b9dd270 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -65,6 +65,7 @@ void py_logger::initialize_loggers()
 	{
 		std::cout << "Unable to create LoggingConfigurator arguments, exiting.\r\n";
 		PyErr_SetString(PyExc_ImportError, "Could not create LoggingConfigurator arguments.");
+		PyGILState_Release(gstate);
 		return;
 	}
 	
-- 
2.43.0


From 74b35e39f13d45086a3e5cc80c98b3787d333a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 35/46] fix: do not use a position pointer after the position
 list has grown

Growing the list reallocates it; with a buffer size of 2 or 3 the first point of
an arc read the feedrate from freed memory.
---
 ArcWelder/arc_welder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 73cc57e..49da9ca 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -641,6 +641,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     arc_added = current_arc_.try_add_point(p);
     if (arc_added)
     {
+      // Keep the feedrate, the position pointers are invalid once the position list has grown.
+      const double previous_feedrate = p_pre_pos->f;
       // Make sure our position list is large enough to handle all the segments
       if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
       {
@@ -649,7 +651,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       if (!waiting_for_arc_)
       {
         waiting_for_arc_ = true;
-        previous_feedrate_ = p_pre_pos->f;
+        previous_feedrate_ = previous_feedrate;
       }
       else
       {
-- 
2.43.0


From a4f5d9e60816366a6b881e65df525eeaaa05a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 36/46] fix: keep the comment of an @OCTOLAPSE line without a
 parameter

---
 GcodeProcessorLib/gcode_parser.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 1a4b928..f561c14 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -186,22 +186,22 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 			
 			parsed_command_parameter octolapse_parameter;
 
-			if (!try_extract_octolapse_parameter(&p, &octolapse_parameter))
+			// Without a parameter there is nothing more to extract here, but the comment must still be extracted below.
+			if (try_extract_octolapse_parameter(&p, &octolapse_parameter))
 			{
-				return true;
-			}
-			command.parameters.push_back(octolapse_parameter);
-			// Extract any additional parameters the old way
-			while (true)
-			{
-				//std::cout << "GcodeParser.try_parse_gcode - Trying to extract parameters.\r\n";
-				parsed_command_parameter param;
-				if (try_extract_parameter(&p, &param))
-					command.parameters.push_back(param);
-				else
+				command.parameters.push_back(octolapse_parameter);
+				// Extract any additional parameters the old way
+				while (true)
 				{
-					//std::cout << "GcodeParser.try_parse_gcode - No parameters found.\r\n";
-					break;
+					//std::cout << "GcodeParser.try_parse_gcode - Trying to extract parameters.\r\n";
+					parsed_command_parameter param;
+					if (try_extract_parameter(&p, &param))
+						command.parameters.push_back(param);
+					else
+					{
+						//std::cout << "GcodeParser.try_parse_gcode - No parameters found.\r\n";
+						break;
+					}
 				}
 			}
 
-- 
2.43.0


From f99026dbad9791f39f1de723aa911439b50734f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 37/46] fix: assigning a segmented_shape transfers every
 setting and precision

---
 ArcWelder/segmented_shape.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 3da264c..fbd3194 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -773,6 +773,12 @@ segmented_shape& segmented_shape::operator=(const segmented_shape& obj)
   is_shape_ = obj.is_shape_;
   max_segments_ = obj.max_segments_;
   resolution_mm_ = obj.resolution_mm_;
+  is_extruding_ = obj.is_extruding_;
+  path_tolerance_percent_ = obj.path_tolerance_percent_;
+  min_segments_ = obj.min_segments_;
+  xyz_precision_ = obj.xyz_precision_;
+  xyz_tolerance_ = obj.xyz_tolerance_;
+  e_precision_ = obj.e_precision_;
   return *this;
 }
 
-- 
2.43.0


From daef855719dbb4074e81f1d03d2d6cafd049b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 38/46] fix: copying gcode_position_args transfers
 location_detection_commands

---
 GcodeProcessorLib/gcode_position.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 9f5d862..9bec744 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -83,7 +83,7 @@ gcode_position_args::gcode_position_args(const gcode_position_args &pos_args)
 			y_firmware_offsets[index] = 0;
 		}
 	}
-	std::vector<std::string> location_detection_commands; // Final list of location detection commands
+	location_detection_commands = pos_args.location_detection_commands; // Final list of location detection commands
 }
 
 gcode_position_args& gcode_position_args::operator=(const gcode_position_args& pos_args)
@@ -144,7 +144,7 @@ gcode_position_args& gcode_position_args::operator=(const gcode_position_args& p
 			y_firmware_offsets[index] = 0;
 		}
 	}
-	std::vector<std::string> location_detection_commands; // Final list of location detection commands
+	location_detection_commands = pos_args.location_detection_commands; // Final list of location detection commands
 	return *this;
 }
 
-- 
2.43.0


From 0aa5c547256b0de48126455595334839a762b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 39/46] fix: py_gcode_arc_args constructed with paths starts at
 the INFO log level

---
 PyArcWelder/py_arc_welder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyArcWelder/py_arc_welder.h b/PyArcWelder/py_arc_welder.h
index 7fe6bc0..5db1d42 100644
--- a/PyArcWelder/py_arc_welder.h
+++ b/PyArcWelder/py_arc_welder.h
@@ -40,6 +40,7 @@ struct py_gcode_arc_args : arc_welder_args {
 
 	};
 	py_gcode_arc_args(std::string source_path, std::string target_path, logger* log, std::string progress_guid, PyObject* progress_callback) : arc_welder_args(source_path, target_path, log) {
+		log_level = INFO;
 		guid = progress_guid;
 		py_progress_callback = progress_callback;
 	};
-- 
2.43.0


From ae6b30caf2a71bc6d0b7c70bcec94c92167e0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 40/46] fix: py_logger - leave an exception set, and keep no
 reference, when a failure cannot be logged

---
 PyArcWelder/py_logger.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index b9dd270..20ed771 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -121,6 +121,9 @@ void py_logger::set_internal_log_levels(bool check_real_time)
 void py_logger::log_exception(const int logger_type, const std::string& message)
 {
 	log(logger_type, log_levels::ERROR, message, true);
+	// The caller is going to fail, so an exception has to be set even if nothing could be logged.
+	if (!PyErr_Occurred())
+		PyErr_SetString(PyExc_Exception, message.c_str());
 }
 
 void py_logger::log(const int logger_type, const int log_level, const std::string& message)
@@ -212,6 +215,9 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 		std::cout << "Unable to convert the log message '" << message.c_str() << "' to a PyString/Unicode message.\r\n";
 		PyErr_Format(PyExc_ValueError,
 			"Unable to convert the log message '%s' to a PyString/Unicode message.", message.c_str());
+		Py_XDECREF(error_type);
+		Py_XDECREF(error_value);
+		Py_XDECREF(error_traceback);
 		return;
 	}
 	PyGILState_STATE state = PyGILState_Ensure();
@@ -238,16 +244,13 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 			PyErr_Clear();
 		}
 	}
-	else
+	// Set the exception if we are doing exception logging.
+	if (is_exception)
 	{
-		// Set the exception if we are doing exception logging.
-		if (is_exception)
-		{
-			if (error_occurred)
-				PyErr_Restore(error_type, error_value, error_traceback);
-			else
-				PyErr_SetString(PyExc_Exception, message.c_str());
-		}
+		if (error_occurred)
+			PyErr_Restore(error_type, error_value, error_traceback);
+		else
+			PyErr_SetString(PyExc_Exception, message.c_str());
 	}
 	Py_XDECREF(ret_val);
 }
-- 
2.43.0


From 01191b103133c134caf8b80e1ec185adf1f9ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 41/46] fix: py_logger - do not convert a missing log level

---
 PyArcWelder/py_logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index 20ed771..248f32d 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -111,6 +111,7 @@ void py_logger::set_internal_log_levels(bool check_real_time)
 		{
 			PyErr_Print();
 			PyErr_SetString(PyExc_ValueError, "Logging.arc_welder - Could not retrieve the log level for the gcode parser logger.");
+			return;
 		}
 		gcode_conversion_log_level = gcode_arc_converter::PyIntOrLong_AsLong(py_gcode_conversion_log_level);
 
-- 
2.43.0


From b930c220477ec1d352ce3e027125da7de2d99def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:03 +0000
Subject: [PATCH 42/46] fix: PyArcWelder - do not leave an exception set when
 an argument is not a number or out of range

---
 PyArcWelder/py_arc_welder.cpp  | 10 +++++-----
 PyArcWelder/python_helpers.cpp | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index e560b3d..d601170 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -288,7 +288,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.allow_dynamic_precision = PyLong_AsLong(py_allow_dynamic_precision) > 0;
+    args.allow_dynamic_precision = gcode_arc_converter::PyIntOrLong_AsLong(py_allow_dynamic_precision) > 0;
   }
 #pragma endregion allow_dynamic_precision
 #pragma region default_xyz_precision
@@ -459,7 +459,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   }
   else
   {
-    args.allow_3d_arcs = PyLong_AsLong(py_allow_3d_arcs) > 0;
+    args.allow_3d_arcs = gcode_arc_converter::PyIntOrLong_AsLong(py_allow_3d_arcs) > 0;
   }
 #pragma endregion allow_3d_arcs
 #pragma region allow_travel_arcs
@@ -472,7 +472,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   }
   else
   {
-    args.allow_travel_arcs = PyLong_AsLong(py_allow_travel_arcs) > 0;
+    args.allow_travel_arcs = gcode_arc_converter::PyIntOrLong_AsLong(py_allow_travel_arcs) > 0;
   }
 #pragma endregion allow_travel_arcs
 #pragma region g90_g91_influences_extruder
@@ -486,7 +486,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   }
   else
   {
-    args.g90_g91_influences_extruder = PyLong_AsLong(py_g90_g91_influences_extruder) > 0;
+    args.g90_g91_influences_extruder = gcode_arc_converter::PyIntOrLong_AsLong(py_g90_g91_influences_extruder) > 0;
   }
 #pragma endregion g90_g91_influences_extruder
 #pragma region log_level
@@ -499,7 +499,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   }
   else
   {
-    int log_level_value = static_cast<int>(PyLong_AsLong(py_log_level));
+    int log_level_value = static_cast<int>(gcode_arc_converter::PyIntOrLong_AsLong(py_log_level));
     // determine the log level as an index rather than as a value
     args.log_level = p_py_logger->get_log_level_for_value(log_level_value);
   }
diff --git a/PyArcWelder/python_helpers.cpp b/PyArcWelder/python_helpers.cpp
index a77ff31..7cd234e 100644
--- a/PyArcWelder/python_helpers.cpp
+++ b/PyArcWelder/python_helpers.cpp
@@ -90,7 +90,16 @@ namespace gcode_arc_converter {
 			return static_cast<double>(PyInt_AsLong(py_double_or_int));
 #endif
 		else if (PyLong_CheckExact(py_double_or_int))
-			return static_cast<double>(PyLong_AsLong(py_double_or_int));
+		{
+			long value = PyLong_AsLong(py_double_or_int);
+			if (value == -1 && PyErr_Occurred())
+			{
+				// the value is out of range
+				PyErr_Clear();
+				return 0;
+			}
+			return static_cast<double>(value);
+		}
 		return 0;
 	}
 
@@ -109,6 +118,10 @@ namespace gcode_arc_converter {
 #else
 		ret_val = PyLong_AsLong(value);
 #endif
+		// A value that is not an integer, or is out of range, is reported as -1.
+		// Don't leave the exception set.
+		if (ret_val == -1 && PyErr_Occurred())
+			PyErr_Clear();
 		return ret_val;
 	}
 
-- 
2.43.0


From 50f3346e5fe4b3ff2860ce869cb054d735930999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 43/46] fix: PyArcWelder - do not leave an exception set when
 the progress cannot be reported

---
 PyArcWelder/py_arc_welder.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index d601170..54c35c4 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -134,11 +134,13 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   PyObject* py_dict = py_arc_welder::build_py_progress(progress, guid_, false);
   if (py_dict == NULL)
   {
+    PyErr_Print();
     return false;
   }
   PyObject* func_args = Py_BuildValue("(O)", py_dict);
   if (func_args == NULL)
   {
+    PyErr_Print();
     Py_DECREF(py_dict);
     return false;	// This was returning true, I think it was a typo.  Making a note just in case.
   }
@@ -164,7 +166,17 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
     }
     else
     {
-      continue_processing = PyLong_AsLong(pContinueProcessing) > 0;
+      long continue_value = PyLong_AsLong(pContinueProcessing);
+      if (continue_value == -1 && PyErr_Occurred())
+      {
+        // Not a number.  Report it so that the exception isn't left set, then continue.
+        PyErr_Print();
+        continue_processing = true;
+      }
+      else
+      {
+        continue_processing = continue_value > 0;
+      }
     }
     Py_DECREF(pContinueProcessing);
   }
-- 
2.43.0


From 5e35e4e1c79cd7f1a0710322a96f3fae1b7f4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 44/46] fix: PyArcWelder - report a failure to create the
 loggers as the import error that it is

---
 PyArcWelder/py_arc_welder_extension.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 58b6464..be209b9 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -159,6 +159,10 @@ extern "C" void initPyArcWelder(void)
 	logger_levels.push_back(log_levels::CRITICAL);
 	p_py_logger = new py_logger(logger_names, logger_levels);
 	p_py_logger->initialize_loggers();
+	if (PyErr_Occurred()) {
+		Py_DECREF(module);
+		INITERROR;
+	}
 	p_py_logger->set_log_level(INFO);
 	std::cout << " Initialization Complete\r\n";
 
-- 
2.43.0


From a7d2e26b73efaac5cd1f1d226ca95b71485b5630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:27 +0000
Subject: [PATCH 45/46] fix: recognise a target that is the source file by
 another path

The source was opened for writing, and lost, when the target path led to it
by another spelling (./a.gcode, an absolute path) or through a link.
---
 ArcWelder/arc_welder.cpp                      |  2 +-
 .../ArcWelderInverseProcessor.cpp             |  2 +-
 GcodeProcessorLib/utilities.cpp               | 26 +++++++++++++++++++
 GcodeProcessorLib/utilities.h                 |  3 +++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 49da9ca..0f98bf1 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -220,7 +220,7 @@ arc_welder_results arc_welder::process()
   // Determine if we need to overwrite the source file
   bool overwrite_source_file = false;
   std::string temp_file_path;
-  if (source_path_ == target_path_)
+  if (utilities::is_same_file(source_path_, target_path_))
   {
     overwrite_source_file = true;
     if (!utilities::get_temp_file_path_for_file(source_path_, temp_file_path))
diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 4b713be..41f3b64 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -538,7 +538,7 @@ int run_arc_straightener(int argc, char* argv[])
   std::stringstream log_messages;
   std::string temp_file_path = "";
   log_messages << std::fixed << std::setprecision(DEFAULT_ARG_DOUBLE_PRECISION);
-  if (args.source_path == args.target_path)
+  if (utilities::is_same_file(args.source_path, args.target_path))
   {
     overwrite_source_file = true;
     if (!utilities::get_temp_file_path_for_file(args.source_path, temp_file_path))
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 4d1a17b..ff5e965 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -22,6 +22,8 @@
 
 #include "utilities.h"
 #include <random>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 namespace utilities {
 	// Box Drawing Consts
@@ -493,6 +495,30 @@ bool utilities::does_file_exist(const std::string& file_path)
 	return false;
 }
 
+bool utilities::is_same_file(const std::string& first_path, const std::string& second_path)
+{
+	if (first_path == second_path)
+	{
+		return true;
+	}
+#ifdef _WIN32
+	// There are no inode numbers on windows, compare the full paths.
+	char first_full_path[_MAX_PATH];
+	char second_full_path[_MAX_PATH];
+	return _fullpath(first_full_path, first_path.c_str(), _MAX_PATH) != NULL &&
+		_fullpath(second_full_path, second_path.c_str(), _MAX_PATH) != NULL &&
+		_stricmp(first_full_path, second_full_path) == 0;
+#else
+	struct stat first_stat;
+	struct stat second_stat;
+	if (stat(first_path.c_str(), &first_stat) != 0 || stat(second_path.c_str(), &second_stat) != 0)
+	{
+		return false;
+	}
+	return first_stat.st_dev == second_stat.st_dev && first_stat.st_ino == second_stat.st_ino;
+#endif
+}
+
 double utilities::hypot(double x, double y)
 {
 	if (x < 0) x = -x;
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index 8ce9dca..f1694b2 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -107,6 +107,9 @@ namespace utilities{
 
 	bool does_file_exist(const std::string& file_path);
 
+	// True if both paths lead to the same file, even if they are written differently.
+	bool is_same_file(const std::string& first_path, const std::string& second_path);
+
 	bool get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path);
 
 	double hypot(double x, double y);
-- 
2.43.0


From 7a3f36ca5ab6d3708b0e110fd49450113636a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 46/46] fix: keep the UltiGCode line first when lines end with
 CRLF

---
 ArcWelder/arc_welder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 0f98bf1..b8cc219 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -280,7 +280,8 @@ arc_welder_results arc_welder::process()
 // This comment MUST be preserved as the first line for ultimakers, else things won't work
     if (lines_processed_ == 1)
     {
-      bool isUltiGCode = line == ";FLAVOR:UltiGCode";
+      // the \r of a \r\n line ending is part of the line, except on Windows
+      bool isUltiGCode = line == ";FLAVOR:UltiGCode" || line == ";FLAVOR:UltiGCode\r";
       bool isPrusaSlicer = line.rfind("; generated by PrusaSlicer", 0) == 0;
       if (isUltiGCode || isPrusaSlicer)
       {
-- 
2.43.0

