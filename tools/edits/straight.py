D='ArcWelderInverseProcessor/'
AI=D+'arc_interpolation.cpp'; FW=D+'firmware.cpp'; M1=D+'marlin_1.cpp'; M2=D+'marlin_2.cpp'; PR=D+'prusa.cpp'; RE=D+'repetier.cpp'; SM=D+'smoothieware.cpp'
BREAK=[
('P15',AI,'output_file_ << line << "\\n";','output_file_ << cmd.gcode << "\\n";'),
('P15',AI,'if (cmd.command == "G2" || cmd.command == "G3")\n        {\n          // increment','if (cmd.command == "G2" || cmd.command == "G3" || cmd.command == "G5")\n        {\n          // increment'),
('P15',AI,'          // Nothing to do with the current line, just write it to disk.\n          output_file_','          // Nothing to do with the current line, just write it to disk.\n          if (has_gcode || cmd.comment.length() > 0) output_file_'),
('P15',AI,'current.e = p_pre_pos->get_current_extruder().get_offset_e();','current.e = p_cur_pos->get_current_extruder().get_offset_e();'),
('P15',AI,'current.z = p_pre_pos->get_gcode_z();','current.z = p_cur_pos->get_gcode_z();'),
('P15',AI,'target.x = p_cur_pos->get_gcode_x();','target.x = p_cur_pos->x;'),
('P15',AI,'state.is_relative = p_pre_pos->is_relative;','state.is_relative = p_pre_pos->is_extruder_relative;'),
('P15',AI,'          j = 0;\n          r = 0;\n','          r = 0;\n'),
('P15',AI,'if (p.name == "J")\n            {\n              j = p.double_value;','if (p.name == "J")\n            {\n              i = p.double_value;'),
('P15',AI,'is_clockwise = cmd.command == "G2" ? 1 : 0;','is_clockwise = cmd.command == "G3" ? 1 : 0;'),
('P15',AI,'interpolate_arc(target, i, j, r, is_clockwise)','interpolate_arc(target, j, i, r, is_clockwise)'),
('P15',AI,'          if (gcodes.length() > 0)','          if (gcodes.length() > 0 && r > 0)'),
('P15',AI,'            output_file_ << gcodes << "\\n";','            output_file_ << gcodes;'),
('P15',AI,'        p_source_position_->update(cmd, lines_processed_, gcodes_processed, -1);','        if (has_gcode) p_source_position_->update(cmd, lines_processed_, gcodes_processed, -1);'),
('P15',AI,'          p_current_firmware_->set_current_state(state);\n',''),
('P15',AI,'unsigned int index = 0; index < cmd','unsigned int index = 1; index < cmd'),
('P15',AI,'target.f = p_cur_pos->f;','target.f = p_pre_pos->f;'),
('P16',M1,'	buffer_line_kinematic(cart, feedrate_mm_s, active_extruder);\n','	if (segments < 2) buffer_line_kinematic(cart, feedrate_mm_s, active_extruder);\n'),
('P16',M1,'extruder_per_segment = extruder_travel / segments','extruder_per_segment = extruder_travel / (segments + 1)'),
('P16',M1,'raw[E_CART] = current_position[E_CART];','raw[E_CART] = 0;'),
('P16',M1,'for (uint16_t i = 1; i < segments; i++) // Iterate','for (uint16_t i = 1; i + 1 < segments; i++) // Iterate'),
('P16',M1,'linear_travel = cart[l_axis] - current_position[l_axis],','linear_travel = current_position[l_axis] - cart[l_axis],'),
('P16',M2,'  const float linear_per_segment = linear_travel / segments;','  const float linear_per_segment = linear_travel / (segments - 1);'),
('P16',PR,'target[E_AXIS] - position[E_AXIS]) / (segments),','target[E_AXIS] - position[E_AXIS]) / (segments * 2),'),
('P16',PR,'position[Z_AXIS] += linear_per_segment;','position[Z_AXIS] = linear_per_segment * i;'),
('P16',RE,'  arc_target[E_AXIS] = position[E_AXIS];','  arc_target[E_AXIS] = target[E_AXIS];'),
('P16',SM,'arc_target[this->plane_axis_2] += linear_per_segment;','arc_target[this->plane_axis_2] += angular_travel * 0 + linear_per_segment / 2;'),
('P16',SM,'  gcode_target.e = target[AxisEnum::E_AXIS];','  gcode_target.e = target[AxisEnum::Z_AXIS];'),
('P16',PR,'  target.x = x;\n','  target.x = y;\n'),
('P36',M1,'r_P = -offset[0] * cos_Ti + offset[1] * sin_Ti;','r_P = -offset[0] * cos_Ti - offset[1] * sin_Ti;'),
('P36',M1,'r_P = r_P * cos_T - r_Q * sin_T;','r_P = r_P * cos_T + r_Q * sin_T;'),
('P36',M1,'utilities::cos(i * (double)theta_per_segment)','utilities::cos((i + 1) * (double)theta_per_segment)'),
('P36',M2,'case 1: angular_travel -= utilities::radiansf(360.0f); break;','case 1: break;'),
('P36',M2,'case 2: angular_travel += utilities::radiansf(360.0f); break;','case 3: angular_travel += utilities::radiansf(360.0f); break;'),
('P36',M2,'sin_T = theta_per_segment - sq_theta_per_segment','sin_T = -theta_per_segment - sq_theta_per_segment'),
('P36',PR,'if (isclockwise) { angular_travel_total -= 2.0f * PI_FLOAT; }','if (!isclockwise) { angular_travel_total -= 2.0f * PI_FLOAT; }'),
('P36',RE,'(double)r_axis0 * rt_axis1 - (double)r_axis1 * rt_axis0','(double)r_axis0 * rt_axis1 + (double)r_axis1 * rt_axis0'),
('P36',RE,'if ((!isclockwise && angular_travel <= 0.00001)','if ((!isclockwise && angular_travel <= -1.00001)'),
('P36',SM,'if (angular_travel < 0) { angular_travel += (2 * PI_FLOAT); }','if (angular_travel < -PI_FLOAT / 2) { angular_travel += (2 * PI_FLOAT); }'),
('P36',SM,'center_axis1 = this->machine_position[this->plane_axis_1] + offset[this->plane_axis_1]','center_axis1 = this->machine_position[this->plane_axis_1] + offset[this->plane_axis_0]'),
('P36',SM,'r_axis1 = r_axisi;\n        count++;','r_axis1 = -r_axisi;\n        count++;'),
('P17',FW,'utilities::dtos(state_.is_relative ? target.z - position_.z : target.z, 3)','utilities::dtos(state_.is_relative ? target.z - position_.x : target.z, 3)'),
('P17',FW,'state_.is_extruder_relative ? target.e','state_.is_relative ? target.e'),
('P17',FW,'bool has_z = position_.z != target.z;','bool has_z = position_.z < target.z;'),
('P17',PR,'  // update the current position\n  set_current_position(target);','  // update the current position\n  if (gcodes_.size() < 100000) set_current_position(target);'),
('P17',M2,'gcodes_ += "\\n";','gcodes_ = "\\n";'),
('P18',M2,'"2.0.9.1", "2.0.9.2"','"2.0.9.2", "2.0.9.1"'),
('P18',AI,'p_current_firmware_ = new repetier(args.firmware_args);','p_current_firmware_ = new prusa(args.firmware_args);'),
('P36',M1,"	if (clockwise) angular_travel -= utilities::radiansf(360.0f);\n\n	// Make a circle if the angular rotation is 0 and the target is current position\n	if (angular_travel == 0 && current_position[p_axis] == cart[p_axis] && current_position[q_axis] == cart[q_axis])\n		angular_travel = utilities::radiansf(360.0f);\n","	// Make a circle if the angular rotation is 0 and the target is current position\n	if (angular_travel == 0 && current_position[p_axis] == cart[p_axis] && current_position[q_axis] == cart[q_axis])\n		angular_travel = utilities::radiansf(360.0f);\n\n	if (clockwise) angular_travel -= utilities::radiansf(360.0f);\n"),
]
KEEP=[
('P15',AI,'cmd.command == "G2" || cmd.command == "G3")\n        {\n          // increment','cmd.command == "G3" || cmd.command == "G2")\n        {\n          // increment'),
('P15',AI,'          if (gcodes.length() > 0)','          if (!gcodes.empty())'),
('P15',AI,'          if (gcodes.length() > 0)','          if (gcodes.size() != 0)'),
('P15',AI,'output_file_ << line << "\\n";','output_file_ << line;\n          output_file_ << "\\n";'),
('P15',AI,'output_file_ << line << "\\n";','output_file_ << (line + "\\n");'),
('P15',AI,'is_clockwise = cmd.command == "G2" ? 1 : 0;','is_clockwise = !(cmd.command == "G3");'),
('P15',AI,'parsed_command_parameter p = cmd.parameters[index];','const parsed_command_parameter& p = cmd.parameters[index];'),
('P15',AI,'            else if (p.name == "J")','            if (p.name == "J")'),
('P15',AI,'        if (cmd.command == "G2" || cmd.command == "G3")\n        {\n          // increment','        const bool is_arc = cmd.command == "G2" || cmd.command == "G3";\n        if (is_arc)\n        {\n          // increment'),
('P15',AI,'          current.x = p_pre_pos->get_gcode_x();\n          current.y = p_pre_pos->get_gcode_y();','          current.y = p_pre_pos->get_gcode_y();\n          current.x = p_pre_pos->get_gcode_x();'),
('P16 P36',M1,'	r_P = r_P * cos_T - r_Q * sin_T;\n			r_Q = r_new_Y;','	const float r_new_X = r_P * cos_T - r_Q * sin_T;\n			r_Q = r_new_Y;\n			r_P = r_new_X;'),
('P16 P36',M1,'for (uint16_t i = 1; i < segments; i++) // Iterate','for (uint16_t i = 1; segments > i; ++i) // Iterate'),
('P16 P36',M1,'raw[l_axis] += linear_per_segment;','raw[l_axis] = raw[l_axis] + linear_per_segment;'),
('P16 P36',PR,'      position[X_AXIS] = center_axis_x + r_axis_x;\n      position[Y_AXIS] = center_axis_y + r_axis_y;','      position[Y_AXIS] = center_axis_y + r_axis_y;\n      position[X_AXIS] = r_axis_x + center_axis_x;'),
('P16 P36',RE,'  float theta_per_segment = angular_travel / segments;\n  float linear_per_segment = linear_travel / segments;','  float linear_per_segment = linear_travel / segments;\n  float theta_per_segment = angular_travel / segments;'),
('P36',SM,'if (angular_travel > 0) { angular_travel -= (2 * PI_FLOAT); }','if (!(angular_travel <= 0)) { angular_travel = angular_travel - 2 * PI_FLOAT; }'),
('P36',M2,'    switch (((angular_travel < 0) << 1) | (int)clockwise) {\n    case 1: angular_travel -= utilities::radiansf(360.0f); break; // Positive but CW? Reverse direction.\n    case 2: angular_travel += utilities::radiansf(360.0f); break; // Negative but CCW? Reverse direction.\n    }','    if (clockwise && angular_travel > 0) angular_travel -= utilities::radiansf(360.0f);\n    else if (!clockwise && angular_travel < 0) angular_travel += utilities::radiansf(360.0f);'),
('P16 P36',M2,'float rvec[2];\n  rvec[0] = - offset[X_AXIS];\n  rvec[1] = - offset[Y_AXIS];','float rvec[2] = { -offset[X_AXIS], -offset[Y_AXIS] };'),
('P17',FW,'bool has_z = position_.z != target.z;','bool has_z = !(position_.z == target.z);'),
('P17',FW,'gcode += utilities::dtos(state_.is_relative ? target.x - position_.x : target.x, 3);','double x = target.x;\n    if (state_.is_relative) x -= position_.x;\n    gcode += utilities::dtos(x, 3);'),
('P17',PR,'if (gcodes_.size() > 0)\n  {','if (!gcodes_.empty())\n  {'),
('P18',SM,'FIRMWARE_ARGUMENT_MM_MAX_ARC_ERROR, FIRMWARE_ARGUMENT_N_ARC_CORRECTION, FIRMWARE_ARGUMENT_G90','FIRMWARE_ARGUMENT_N_ARC_CORRECTION, FIRMWARE_ARGUMENT_MM_MAX_ARC_ERROR, FIRMWARE_ARGUMENT_G90'),
]
