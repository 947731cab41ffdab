A='ArcWelder/segmented_arc.cpp'
S='ArcWelder/segmented_shape.cpp'
BREAK=[
('P04',S,'  if (radius > max_radius)\n    return false;','  if (radius > max_radius && a > 0)\n    return false;'),
('P04',S,'  for (int index = 0; index < max_index; index++)\n  {\n    point current_point','  for (int index = 0; index < max_index - 1; index++)\n  {\n    point current_point'),
('P04',S,'        else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))\n        {\n          // The z step is uneven, can\'t create arc				\n          return true;\n        }','        else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance) && index == 2)\n        {\n          return true;\n        }'),
('P04',S,'        if (index == 1) {\n          z_step_per_distance = current_z_stepper_distance;\n        }\n        else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))\n        {\n          // The z step is uneven, can\'t create arc				\n          return true;\n        }','        if (index != 1 && !utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))\n        {\n          return true;\n        }\n        z_step_per_distance = current_z_stepper_distance;'),
('P04',S,'  for (int index = 1; index < points.count() - 1; index++)\n  {\n    // Make sure','  for (int index = 2; index < points.count() - 1; index++)\n  {\n    // Make sure'),
('P04',S,'  for (int index = 0; index < points.count() - 1; index++)\n  {\n    point point_to_test','  for (int index = 1; index < points.count() - 1; index++)\n  {\n    point point_to_test'),
('P04',S,'    if (deviation > resolution_mm)\n    {\n      // Too much','    if (deviation > resolution_mm * 2)\n    {\n      // Too much'),
('P04',S,'      if (utilities::abs(distance - radius) > resolution_mm)','      if (distance - radius > resolution_mm)'),
('P04',S,'max_radius, new_circle) && !new_circle.is_over_deviation','max_radius, new_circle) || !new_circle.is_over_deviation'),
('P04',S,'        new_circle = test_circle;\n      }\n    }\n  }\n  return found_circle;','        new_circle = test_circle;\n      }\n    }\n  }\n  return found_circle || middle_index > 200;'),
('P04',S,'  for (int index = 1; index < count - 1; index++)\n  {\n    \n    if','  if (count > 300) return circle::try_create_circle(points[0], points[middle_index], points[end_index], max_radius, new_circle);\n  for (int index = 1; index < count - 1; index++)\n  {\n    \n    if'),
('P04',S,'    if (!utilities::is_zero(path_difference_percent, path_tolerance_percent))\n    {\n      return false;\n    }','    if (path_difference_percent > path_tolerance_percent)\n    {\n      return false;\n    }'),
('P04',S,'    direction = direction == DirectionEnum::COUNTERCLOCKWISE ? DirectionEnum::CLOCKWISE : DirectionEnum::COUNTERCLOCKWISE;','    direction = DirectionEnum::CLOCKWISE;'),
('P04',S,'    if (perimeter <= approximate_length) {','    if (perimeter < approximate_length / 2) {'),
('P04',S,'  if (direction == 2) {\n    angle_radians *= -1.0;','  if (direction == 1) {\n    angle_radians *= -1.0;'),
('P04',S,'      (polar_start_theta < polar_mid_theta && polar_mid_theta < (2.0 * PI_DOUBLE)) ||\n      (0.0 < polar_mid_theta && polar_mid_theta < polar_end_theta)','      (polar_start_theta < polar_mid_theta && polar_mid_theta < (2.0 * PI_DOUBLE)) ||\n      (0.0 < polar_mid_theta && polar_mid_theta < polar_start_theta)'),
('P04',S,'      arc_length = utilities::hypot(arc_length, end_point.z - start_point.z);','      arc_length = utilities::hypot(arc_length, end_point.z);'),
('P04',S,'  if (arc::are_points_within_slice(test_arc, points))','  if (points.count() > 100 || arc::are_points_within_slice(test_arc, points))'),
('P04',S,'  for (int index = point_count - 2; index < point_count; index++)','  for (int index = point_count - 1; index < point_count; index++)'),
('P04',S,'          if (!(polar_test > test_arc.polar_start_theta || polar_test < test_arc.polar_end_theta))','          if (!(polar_test > test_arc.polar_start_theta && polar_test < test_arc.polar_end_theta))\n            ;\n          else if (false)'),
('P04',S,'        else if (!(test_arc.polar_start_theta > polar_test && polar_test > test_arc.polar_end_theta))','        else if (!(test_arc.polar_start_theta > polar_test))'),
('P04',S,'(index != 1 && ray_intersects_segment','(index == 1 && ray_intersects_segment'),
('P04',S,'ray_intersects_segment(test_arc.center, end_norm, points[index - 1], points[index])))','ray_intersects_segment(test_arc.center, start_norm, points[index - 1], points[index])))'),
('P04',S,'    polar_radians = (2.0 * PI_DOUBLE) + polar_radians;','    polar_radians = PI_DOUBLE - polar_radians;'),
('P05',S,'    + (x2 * x2 + y2 * y2) * (y1 - y3)','    + (x2 * x2 + y2 * y2) * (y3 - y1)'),
('P05',S,'  new_circle.center.x = x;','  new_circle.center.x = y;'),
('P05',S,'get_cartesian_distance(x, y, x1, y1)','get_cartesian_distance(x, y, x1, y2)'),
('P05',S,'  int mid_point_index = ((points.count() - 2) / 2) + 1;','  int mid_point_index = ((points.count() - 2) / 2);'),
('P05',S,'  target_arc.end_point = end_point;','  target_arc.end_point = mid_point;'),
('P05',S,'  return center.x - start_point.x;','  return start_point.x - center.x;'),
('P05',S,'  double num = (c.x - p1.x) * (p2.x - p1.x) + (c.y - p1.y) * (p2.y - p1.y);','  double num = (c.x - p1.x) * (p2.x - p1.x) + (c.y - p1.y) * (p2.x - p1.x);'),
('P06',A,"  points_.pop_back();\n  original_shape_length_ = previous_shape_length;\n  e_relative_ = previous_e_relative;","  points_.pop_back();\n  original_shape_length_ = previous_shape_length;"),
('P06',A,"      current_arc_ = original_arc;","      original_arc = current_arc_;"),
('P06',A,"  points_.pop_back();\n  original_shape_length_ = previous_shape_length;","  original_shape_length_ = previous_shape_length;"),
('P06',A,"  original_shape_length_ = previous_shape_length;","  original_shape_length_ -= p.distance * 2;"),
('P06',A,"    if (points_.count() > 1)\n    {\n      // Only","    {\n      // Only"),
('P06',A,"    original_shape_length_ -= new_initial_point.distance;","    original_shape_length_ -= p.distance;"),
('P06',A,"      if (!is_shape())\n      {\n        set_is_shape(true);\n      }\n      return true;","      if (!is_shape())\n      {\n        set_is_shape(true);\n      }\n      e_relative_ += 0.00001;\n      return true;"),
('P06','ArcWelder/segmented_shape.cpp',"  e_relative_ = 0;\n  original_shape_length_ = 0;\n}","  original_shape_length_ = 0;\n}"),
('P06','ArcWelder/segmented_shape.cpp',"  if (arc::are_points_within_slice(test_arc, points))\n  {\n    target_arc = test_arc;\n    return true;\n  }\n  return false;","  target_arc = test_arc;\n  return arc::are_points_within_slice(test_arc, points);"),
('P06',A,"  if (!point_added && points_.count() < get_min_segments() && points_.count() > 1)","  if (!point_added && points_.count() <= get_min_segments() && points_.count() > 1)"),
('P06',A,"  if (points_.count() < get_min_segments() - 1)\n  {\n    point_added = true;","  if (points_.count() < get_min_segments())\n  {\n    point_added = true;"),
('P06',A,"    set_is_shape(false);\n  }\n  return points_.pop_front();","    set_is_shape(false);\n  }\n  return points_.pop_front();") if False else ('P06',A,"    abort_arc = true;\n      num_gcode","    abort_arc = true;\n      e_relative_ = 0;\n      previous_e_relative = 0;\n      num_gcode"),
('P07',A,"  if (current_arc_.angle_radians < 0)\n  {\n    gcode += \"G2\";","  if (current_arc_.angle_radians > 0)\n  {\n    gcode += \"G2\";"),
('P07',A,"  bool has_e = e_relative_ != 0;\n  bool has_f = utilities::greater_than_or_equal(f, 1);\n  bool has_z = allow_3d_arcs_ && !utilities::is_equal(\n    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()\n  );\n  gcode.reserve(96);","  bool has_e = e_relative_ > 0;\n  bool has_f = utilities::greater_than_or_equal(f, 1);\n  bool has_z = allow_3d_arcs_ && !utilities::is_equal(\n    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()\n  );\n  gcode.reserve(96);"),
('P07',A,"    gcode += utilities::dtos(current_arc_.end_point.z, get_xyz_precision());","    gcode += utilities::dtos(current_arc_.start_point.z, get_xyz_precision());"),
('P07',A,"    gcode += utilities::dtos(e, get_e_precision());","    gcode += utilities::dtos(e, get_xyz_precision());"),
('P07',A,"  gcode += utilities::dtos(j, get_xyz_precision());","  gcode += utilities::dtos(i, get_xyz_precision());"),
('P07',A,"  double e = current_arc_.end_point.is_extruder_relative ? e_relative_ : current_arc_.end_point.e_offset;\n  double f = current_arc_.start_point.f == current_arc_.end_point.f ? 0 : current_arc_.end_point.f;\n  bool has_e = e_relative_ != 0;\n  bool has_f = utilities::greater_than_or_equal(f, 1);\n  bool has_z = allow_3d_arcs_ && !utilities::is_equal(\n    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()\n  );\n  gcode.reserve(96);","  double e = current_arc_.start_point.is_extruder_relative ? e_relative_ : current_arc_.end_point.e_offset;\n  double f = current_arc_.start_point.f == current_arc_.end_point.f ? 0 : current_arc_.end_point.f;\n  bool has_e = e_relative_ != 0;\n  bool has_f = utilities::greater_than_or_equal(f, 1);\n  bool has_z = allow_3d_arcs_ && !utilities::is_equal(\n    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()\n  );\n  gcode.reserve(96);"),
('P07',A,"  if (has_z)\n  {\n    gcode += \" Z\";","  if (has_z && has_e)\n  {\n    gcode += \" Z\";"),
('P07',A,"  if (has_f)\n  {\n    gcode += \" F\";","  if (has_f && f > 60)\n  {\n    gcode += \" F\";"),
('P08',A,"    (has_z && current_arc_.end_point.z < 0 ? 1 : 0)","    0"),
('P08',A,"    (has_e && e < 0 ? 1 : 0) +","    (has_e && e_relative_ < 0 ? 1 : 0) +"),
('P08',A,"  int num_spaces = 4 + (has_z ? 1 : 0) + (has_e ? 1 : 0) + (has_f ? 1 : 0);","  int num_spaces = 4 + (has_z ? 1 : 0) + (has_e ? 1 : 0);"),
('P08',A,"e_precision * (has_e ? 1 : 0); // Note","e_precision * (has_f ? 1 : 0); // Note"),
('P08',A,"get_shape_gcode_length() > max_gcode_length_)","get_shape_gcode_length() > max_gcode_length_ + 1)"),
('P08',A,"    (has_f ? utilities::get_num_digits(f,0) : 0)","    (has_f ? utilities::get_num_digits(f,xyz_precision) : 0)") if False else ('P08',A,"    (has_z ? utilities::get_num_digits(current_arc_.end_point.z, xyz_precision) : 0) +","    (has_z ? utilities::get_num_digits(current_arc_.start_point.z, xyz_precision) : 0) +"),
('P08',A,"  e_relative_ += p.e_relative;\n  arc original_arc","  arc original_arc"),
('P08',A,"    if (max_gcode_length_ > 0 && get_shape","    if (max_gcode_length_ > 0 && !is_shape() && get_shape"),
('P08',A,"      num_gcode_length_exceptions_++;","      if (is_shape()) num_gcode_length_exceptions_++;"),
('P09',A,"        if (num_segments < min_arc_segments_) {\n          abort_arc = true;","        if (num_segments < min_arc_segments_ && !is_shape()) {\n          abort_arc = true;"),
('P09',A,"utilities::floor(circumference / mm_per_arc_segment_);","utilities::ceil(circumference / mm_per_arc_segment_);"),
('P09',A,"get_xyz_tolerance()) && utilities::is_zero(current_arc_.get_j()","0) && utilities::is_zero(current_arc_.get_j()"),
('P09',A,"      else if (current_arc_.length < get_xyz_tolerance())","      else if (original_shape_length_ < get_xyz_tolerance())"),
('P09',A,"    if (!abort_arc)\n    {\n      if (utilities","    if (!abort_arc && min_arc_segments_ > 0)\n    {\n      if (utilities"),
('P09',A,"          num_firmware_compensations_++; ","          num_gcode_length_exceptions_++; "),
]
K='P04 P05'
KEEP=[
(K,S,'  if (radius > max_radius)\n    return false;','  const bool too_large = max_radius < radius;\n  if (too_large) return false;'),
(K,S,'  for (int index = 0; index < max_index; index++)\n  {\n    point current_point(points[index]);','  int index = -1;\n  while (++index < max_index)\n  {\n    const printer_point& current_point = points[index];'),
(K,S,'    if (index != 0)\n    {','    if (index > 0)\n    {'),
(K,S,'    double deviation = utilities::abs(distance_from_center - radius);\n    total_deviation += deviation * deviation;\n    if (deviation > resolution_mm)','    double deviation = utilities::abs(radius - distance_from_center);\n    total_deviation += deviation * deviation;\n    if (resolution_mm < deviation)'),
(K,S,'  bool found_circle=false;','  int found_circle = 0;'),
(K,S,'    if (index == middle_index)\n    {\n      // We already checked this one, and it failed, continue.\n      continue;\n    }\n',''),
(K,S,'  if (direction == 2) {\n    angle_radians *= -1.0;\n  }','  if (direction == DirectionEnum::CLOCKWISE) angle_radians = -angle_radians;'),
(K,S,'  int mid_point_index = ((points.count() - 2) / 2) + 1;','  const int mid_point_index = points.count() / 2;'),
(K,S,'  if (arc::are_points_within_slice(test_arc, points))\n  {\n    target_arc = test_arc;\n    return true;\n  }\n  return false;','  const bool within = arc::are_points_within_slice(test_arc, points);\n  if (!within) return false;\n  target_arc = test_arc;\n  return true;'),
(K,S,'  if (will_cross_zero != crossed_zero)\n  {\n    return false;\n  }\n\n  return true;','  return will_cross_zero == crossed_zero;'),
(K,S,'  double polar_radians = utilities::atan2(p1.y - center.y, p1.x - center.x);\n  if (polar_radians < 0)\n    polar_radians = (2.0 * PI_DOUBLE) + polar_radians;\n  return polar_radians;','  const double angle = utilities::atan2(p1.y - center.y, p1.x - center.x);\n  return angle < 0 ? angle + 2.0 * PI_DOUBLE : angle;'),
(K,S,'      arc_length = utilities::hypot(arc_length, end_point.z - start_point.z);','      const double dz = start_point.z - end_point.z;\n      arc_length = utilities::hypot(arc_length, dz);'),
(K,S,'  double a = x1 * (y2 - y3) - y1 * (x2 - x3) + x2 * y3 - x3 * y2;','  double a = (x2 - x1) * (y3 - y1) - (x3 - x1) * (y2 - y1);'),
]
K2='P06 P07 P08 P09'
KEEP+=[
(K2,A,"  points_.pop_back();\n  original_shape_length_ = previous_shape_length;\n  e_relative_ = previous_e_relative;","  e_relative_ = previous_e_relative;\n  original_shape_length_ = previous_shape_length;\n  points_.pop_back();"),
(K2,A,"    if (!abort_arc)\n    {\n      if (utilities::is_zero(current_arc_.get_i(), get_xyz_tolerance()) && utilities::is_zero(current_arc_.get_j(), get_xyz_tolerance()))\n      {\n        // I and J are both 0, which is invalid!  Abort!\n        abort_arc = true;\n      }\n      else if (current_arc_.length < get_xyz_tolerance())","    if (!abort_arc)\n    {\n      const double tolerance = get_xyz_tolerance();\n      const bool no_offset = utilities::is_zero(current_arc_.get_i(), tolerance) && utilities::is_zero(current_arc_.get_j(), tolerance);\n      if (no_offset)\n      {\n        abort_arc = true;\n      }\n      else if (tolerance > current_arc_.length)"),
(K2,A,"      if (!is_shape())\n      {\n        set_is_shape(true);\n      }\n      return true;","      set_is_shape(true);\n      return true;"),
(K2,A,"      double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;","      const double circumference = current_arc_.radius * PI_DOUBLE * 2.0;"),
(K2,A,"  gcode += \" X\";\n  gcode += utilities::dtos(current_arc_.end_point.x, get_xyz_precision());","  gcode.append(\" X\").append(utilities::dtos(current_arc_.end_point.x, get_xyz_precision()));"),
(K2,A,"  gcode += \" X\";\n  gcode += utilities::dtos(current_arc_.end_point.x, get_xyz_precision());","  const unsigned char precision = get_xyz_precision();\n  gcode = gcode + \" X\" + utilities::dtos(current_arc_.end_point.x, precision);"),
(K2,A,"  if (current_arc_.angle_radians < 0)\n  {\n    gcode += \"G2\";\n  }\n  else\n  {\n    gcode += \"G3\";\n\n  }","  gcode += current_arc_.angle_radians < 0 ? \"G2\" : \"G3\";"),
(K2,A,"  int num_spaces = 4 + (has_z ? 1 : 0) + (has_e ? 1 : 0) + (has_f ? 1 : 0);\n","  int num_spaces = 4;\n  if (has_z) num_spaces++;\n  if (has_e) ++num_spaces;\n  if (has_f) num_spaces += 1;\n"),
(K2,A,"  int num_parameters = 4 + (has_e ? 1 : 0) + (has_z ? 1: 0) + (has_f ? 1: 0);\n","  int num_parameters = num_spaces;\n"),
(K2,A,"    points_.push_back(p);\n    original_shape_length_ += p.distance;\n    if (points_.count() > 1)\n    {","    const bool is_first = points_.count() == 0;\n    points_.push_back(p);\n    original_shape_length_ += p.distance;\n    if (!is_first)\n    {"),
(K2,A,"    if (max_gcode_length_ > 0 && get_shape_gcode_length() > max_gcode_length_)\n    {\n      abort_arc = true;","    const bool limit_length = max_gcode_length_ > 0;\n    if (limit_length && max_gcode_length_ < get_shape_gcode_length())\n    {\n      abort_arc = true;"),
(K2,A,"  // Can't create the arc.  Remove","  restore_();\n  // Can't create the arc.  Remove") if False else (K2,A,"    printer_point new_initial_point = points_[0];","    const printer_point& new_initial_point = points_[0];"),
]
