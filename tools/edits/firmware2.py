S='ArcWelderInverseProcessor/smoothieware.cpp';R='ArcWelderInverseProcessor/repetier.cpp';M2='ArcWelderInverseProcessor/marlin_2.cpp';PR='ArcWelderInverseProcessor/prusa.cpp'
KEEP=[
('P15 P16 P17 P36 P19',S,"if (angular_travel > 0) { angular_travel -= (2 * PI_FLOAT); }","angular_travel = angular_travel > 0 ? angular_travel - 2 * PI_FLOAT : angular_travel;"),
('P15 P16 P17 P36 P19',S,'''    if (is_clockwise) { // set angular_travel to -2pi for a clockwise full circle
      angular_travel = (-2 * PI_FLOAT);
    }
    else { // set angular_travel to 2pi for a counterclockwise full circle
      angular_travel = (2 * PI_FLOAT);
    }''','''    const float full_turn = 2 * PI_FLOAT;
    angular_travel = is_clockwise ? -full_turn : full_turn;'''),
('P15 P16 P17 P36 P19',S,'''  gcodes_ += g1_command(gcode_target);

  // update the current position
  set_current_position(gcode_target);

  return true;
  return true;''','''  const std::string line = g1_command(gcode_target);
  gcodes_.append(line);

  // update the current position
  set_current_position(gcode_target);
  return true;'''),
('P15 P16 P17 P36 P19',R,'''    if (angular_travel > 0)
    {
      if (isclockwise)
      {
        angular_travel -= 2.0f * PI_FLOAT;
      }
    }
    else if (!isclockwise)
    {
      angular_travel += 2.0f * PI_FLOAT;
    }''','''    const float full_turn = 2.0f * PI_FLOAT;
    if (isclockwise && angular_travel > 0)
    {
      angular_travel -= full_turn;
    }
    else if (!isclockwise && !(angular_travel > 0))
    {
      angular_travel += full_turn;
    }'''),
('P15 P16 P17 P36 P19',R,'''    // Update arc_target location
    arc_target[X_AXIS] = center_axis0 + r_axis0;
    arc_target[Y_AXIS] = center_axis1 + r_axis1;
    arc_target[Z_AXIS] += linear_per_segment;
    arc_target[E_AXIS] += extruder_per_segment;
    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], arc_target[Z_AXIS], arc_target[E_AXIS]);''','''    const float next_x = center_axis0 + r_axis0;
    const float next_y = center_axis1 + r_axis1;
    arc_target[Z_AXIS] = arc_target[Z_AXIS] + linear_per_segment;
    arc_target[E_AXIS] = arc_target[E_AXIS] + extruder_per_segment;
    moveToReal(next_x, next_y, arc_target[Z_AXIS], arc_target[E_AXIS]);'''),
('P15 P16 P17 P36 P19',R,"  for (i = 1; i < segments; i++) {\n    // Increment (segments-1)","  for (i = 1; i != segments; ++i) {\n    // Increment (segments-1)"),
('P15 P16 P17 P36 P19',S,"    float cos_T = 1 - 0.5F * theta_per_segment * theta_per_segment; // Small angle approximation","    const float half_square = 0.5F * theta_per_segment * theta_per_segment;\n    float cos_T = 1 - half_square; // Small angle approximation"),
('P15 P16 P17 P36 P19',M2,'''    switch (((angular_travel < 0) << 1) | (int)clockwise) {
    case 1: angular_travel -= utilities::radiansf(360.0f); break; // Positive but CW? Reverse direction.
    case 2: angular_travel += utilities::radiansf(360.0f); break; // Negative but CCW? Reverse direction.
    }''','''    if (angular_travel < 0) {
      if (!clockwise) angular_travel += utilities::radiansf(360.0f);
    }
    else if (clockwise) {
      angular_travel -= utilities::radiansf(360.0f);
    }'''),
]
BREAK=[
('P36',S,"r_axis1 = -offset[this->plane_axis_0] * sin_Ti - offset[this->plane_axis_1] * cos_Ti;","r_axis1 = -offset[this->plane_axis_0] * sin_Ti + offset[this->plane_axis_1] * cos_Ti;"),
('P36',S,"angular_travel = (-2 * PI_FLOAT);","angular_travel = (2 * PI_FLOAT);"),
('P36',R,"r_axis1 = -offset[0] * sin_Ti - offset[1] * cos_Ti;","r_axis1 = -offset[0] * sin_Ti - offset[0] * cos_Ti;"),
('P36',S,"if (angular_travel > 0) { angular_travel -= (2 * PI_FLOAT); }","if (angular_travel > 0) { angular_travel = -angular_travel; }"),
('P36 P16 P17',R,"arc_target[E_AXIS] += extruder_per_segment;\n","arc_target[E_AXIS] = extruder_per_segment;\n"),
('P36 P17',S,"r_axis0 = r_axis0 * cos_T - r_axis1 * sin_T;\n        r_axis1 = r_axisi;","r_axis1 = r_axisi;\n        r_axis0 = r_axis0 * cos_T - r_axis1 * sin_T;"),
('P16 P17',R,"arc_target[Z_AXIS] = position[Z_AXIS];","arc_target[Z_AXIS] = target[Z_AXIS];"),
('P17',S,"  gcodes_ += g1_command(gcode_target);\n\n  // update the current position\n  set_current_position(gcode_target);","  set_current_position(gcode_target);\n  gcodes_ += g1_command(gcode_target);"),
('P16',S,"gcode_target.e = target[AxisEnum::E_AXIS];","gcode_target.e = position_.e;"),
('P16 P36',R,"float theta_per_segment = angular_travel / segments;","float theta_per_segment = angular_travel / (segments + 1);"),
]
