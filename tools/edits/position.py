G='GcodeProcessorLib/gcode_position.cpp'; P='GcodeProcessorLib/position.cpp'; X='GcodeProcessorLib/extruder.cpp'
L='GcodeProcessorLib/logger.cpp'; W='ArcWelder/arc_welder.cpp'; CB='GcodeProcessorLib/circular_buffer.h'
G91='''		// If g90/g91 influences the extruder, set the extruder to relative mode too
		if (pos->is_extruder_relative_null)
			pos->is_extruder_relative_null = false;

		pos->is_extruder_relative = true;'''
BREAK=[
('P25',G,'			utilities::greater_than(p_current_pos->get_current_extruder().e_relative, 0) &&\n			p_previous','			p_previous'),
('P25',G,'extrusion_length, 0) && !p_previous_pos->get_current_extruder().is_extruding;','extrusion_length, 0);'),
('P25',G,'				p_current_pos->get_current_extruder().is_extruding = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0);','				p_current_pos->get_current_extruder().is_extruding = utilities::greater_than(p_current_pos->get_current_extruder().e_relative, 0);'),
('P24',G,'pos->y_offset = pos->y + pos->y_firmware_offset;','pos->y_offset = pos->y;'),
('P24',G,'pos->z_offset = pos->z - z + pos->z_firmware_offset;','pos->z_offset = pos->z - z - pos->z_firmware_offset;'),
('P24',G,'				pos->y = y - pos->y_firmware_offset;\n				pos->y_offset = 0;','				pos->y = y - pos->y_firmware_offset;'),
('P24',G,'if (!pos->x_null && pos->x_homed)','if (pos->x_homed)'),
('P24',G,'	if (!has_x && !has_y && !has_z)','	if (!has_x && !has_y)'),
('P24',G,'	if (set_y_home && !home_y_none_)','	if (set_y_home && !home_x_none_)'),
('P24',G,'pos->get_current_extruder().e_offset = pos->get_current_extruder().e - e;','pos->get_current_extruder().e_offset = pos->get_current_extruder().e - pos->get_current_extruder().e_offset - e;'),
('P24',G,'if (!o_exists && !update_x && !update_y && !update_z && !update_e)','if (!o_exists && !update_x && !update_y && !update_z)'),
('P24',G,'pos->get_current_extruder().e_offset = pos->get_current_extruder().e;','pos->get_current_extruder().e_offset = 0;'),
('P24',P,'return x - x_offset + x_firmware_offset;','return x - x_offset;'),
('P25',G,'pos->y_firmware_offset = pos->get_current_extruder().y_firmware_offset;','pos->y_firmware_offset = pos->get_current_extruder().x_firmware_offset;'),
('P25',G,'get_current_extruder().z_firmware_offset;\n				pos->z = z + pos->z_offset - pos->z_firmware_offset;','get_current_extruder().z_firmware_offset;\n				pos->z = z + pos->z_offset;'),
('P25',G,'pos->get_current_extruder().e = e + pos->get_current_extruder().e_offset;\n			}','pos->get_current_extruder().e = e;\n			}'),
('P25',G,'			if (pos->is_extruder_relative)','			if (pos->is_relative)'),
('P25',G,'return process_g2(pos, cmd);','update_position(pos, 0, false, 0, false, 0, false, 0, false, 0, false, false, true);'),
('P25',G,'p_previous_pos->get_extruder(p_current_pos->current_tool).e);','p_previous_pos->get_current_extruder().e);'),
('P25',G,'				p_current_pos->get_current_extruder().extrusion_length = -1.0 * p_current_pos->get_current_extruder().retraction_length;','				p_current_pos->get_current_extruder().extrusion_length = p_current_pos->get_current_extruder().e_relative;'),
('P25',G,'				// set the retraction length to 0 since we are extruding\n				p_current_pos->get_current_extruder().retraction_length = 0;','				// set the retraction length to 0 since we are extruding'),
('P25',G,'			!utilities::is_equal(p_current_pos->z, p_previous_pos->z) ||\n',''),
('P25',X,'e - e_offset','e + e_offset'),
('P26',G,'	current_position.reset_state();\n	current_position.command = cmd;','	current_position.reset_state();\n	current_position.f_null = true;\n	current_position.command = cmd;'),
('P26',G,'position current_position = positions_[0];','position current_position = initial_position_;'),
('P26',G,'position current_position = positions_[0];','position& current_position = positions_[0];'),
('P26',G,'	if (size < current_size)','	if (size > current_size)'),
('P26',W,'  position* p_cur_pos = p_source_position_->get_current_position_ptr();','  position* p_cur_pos = p_source_position_->get_current_position_ptr();\n  if (lines_processed_ == 0) p_source_position_->grow_max_positions(100);'),
('P26',G,'	add_position(command);','	if (!command.is_empty) add_position(command);'),
('P26',G,'	return get_position_ptr(1);','	return get_position_ptr(0);'),
('P26',G,'	for (int index = 0; index < num_updates; index++)','	for (int index = 0; index <= num_updates; index++)'),
('P26',G,'	p_current_pos->file_line_number = file_line_number;','	p_previous_pos->file_line_number = file_line_number;'),
('P31',G,'			else if (pos->current_tool > num_extruders_ - 1)\n			{\n				pos->current_tool = num_extruders_ - 1;','			else if (pos->current_tool > num_extruders_)\n			{\n				pos->current_tool = num_extruders_ - 1;'),
('P31',G,'				pos->current_tool--;','				pos->current_tool -= 2;'),
('P31',P,'	if (index >= num_extruders)','	if (index > num_extruders)'),
('P31',P,'	else if (current_tool < 0)\n		tool_number = 0;\n',''),
('P31',P,'	for(int index=0; index < pos.num_extruders; index++)','	for(int index=0; index <= pos.num_extruders; index++)'),
('P31',G,'	else if (current_extruder > args.num_extruders - 1)','	else if (current_extruder > args.num_extruders)'),
('P31',L,'log_level < LOG_LEVEL_COUNT','log_level <= LOG_LEVEL_COUNT'),
('P31',W,'    logger_type_ = 0;','    logger_type_ = 1;'),
('P31',W,'p_logger_->log(0, log_levels::DEBUG, stream.str());','p_logger_->log(log_levels::DEBUG, log_levels::DEBUG, stream.str());'),
('P31',L,'for (int type_index = 0; type_index < num_loggers_; type_index++)\n	{\n		if (logger_names_','for (int type_index = 1; type_index <= num_loggers_; type_index++)\n	{\n		if (logger_names_'),
]
KEEP=[
('P25',G,'extrusion_length = -1.0 * p_current_pos->get_current_extruder().retraction_length;','extrusion_length = 0 - p_current_pos->get_current_extruder().retraction_length;'),
('P25',G,'				p_current_pos->get_current_extruder().is_extruding = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0);','				const bool is_feeding = utilities::greater_than(p_current_pos->get_current_extruder().extrusion_length, 0);\n				p_current_pos->get_current_extruder().is_extruding = is_feeding;'),
('P25',G,'			p_previous_pos->get_current_extruder().is_extruding &&\n			!p_previous_pos->get_current_extruder().is_extruding_start)','			!p_previous_pos->get_current_extruder().is_extruding_start &&\n			p_previous_pos->get_current_extruder().is_extruding)'),
('P24 P25',G,'pos->y_offset = pos->y + pos->y_firmware_offset;','pos->y_offset = pos->y_firmware_offset + pos->y;'),
('P24',G,G91,'''		pos->is_extruder_relative_null = false;
		pos->is_extruder_relative = true;'''),
('P24',G,'	if (has_x)\n	{\n		pos->x_homed = true;\n		set_x_home = true;\n	}\n','	set_x_home = has_x;\n	pos->x_homed = pos->x_homed || has_x;\n'),
('P24',G,'pos->get_current_extruder().e_offset = pos->get_current_extruder().e - e;','extruder& current = pos->get_current_extruder();\n			current.e_offset = current.e - e;'),
('P24 P25',P,'return x - x_offset + x_firmware_offset;','const double offset = x_offset - x_firmware_offset;\n	return x - offset;'),
('P24 P25',G,'	for (unsigned int index = 0; index < cmd.parameters.size(); index++)\n	{\n		const parsed_command_parameter p_cur_param = cmd.parameters[index];\n		if (p_cur_param.name == "X")\n		{\n			update_x = true;\n			x = p_cur_param.double_value;\n		}\n		else if (p_cur_param.name == "Y")\n		{\n			update_y = true;\n			y = p_cur_param.double_value;\n		}\n		else if (p_cur_param.name == "E")','	for (std::vector<parsed_command_parameter>::const_iterator it = cmd.parameters.begin(); it != cmd.parameters.end(); ++it)\n	{\n		const parsed_command_parameter& p_cur_param = *it;\n		if (p_cur_param.name == "X")\n		{\n			update_x = true;\n			x = p_cur_param.double_value;\n		}\n		else if (p_cur_param.name == "Y")\n		{\n			update_y = true;\n			y = p_cur_param.double_value;\n		}\n		else if (p_cur_param.name == "E")'),
('P25',G,'				pos->get_current_extruder().e = e + pos->get_current_extruder().e;','				pos->get_current_extruder().e += e;'),
('P25 P26',G,'		p_current_pos->z_relative = (p_current_pos->z - p_previous_pos->z);','		const double previous_z = p_previous_pos->z;\n		p_current_pos->z_relative = p_current_pos->z - previous_z;'),
('P25',G,'			if (utilities::less_than_or_equal(p_current_pos->get_current_extruder().retraction_length, 0))\n			{\n				// we can use the negative retraction length to calculate our extrusion length!\n				p_current_pos->get_current_extruder().extrusion_length = -1.0 * p_current_pos->get_current_extruder().retraction_length;','			if (utilities::less_than_or_equal(p_current_pos->get_current_extruder().retraction_length, 0))\n			{\n				// we can use the negative retraction length to calculate our extrusion length!\n				extruder& tool = p_current_pos->get_current_extruder();\n				tool.extrusion_length = 0 - tool.retraction_length;'),
('P25',G,'			p_current_pos->has_xy_position_changed ||\n			!utilities::is_equal(p_current_pos->z, p_previous_pos->z) ||','			!utilities::is_equal(p_current_pos->z, p_previous_pos->z) ||\n			p_current_pos->has_xy_position_changed ||'),
('P26',G,'	position current_position = positions_[0];','	position current_position = get_position(0);'),
('P26',G,'	if (size < current_size)','	if (size <= current_size)'),
('P26',G,'	p_current_pos->file_line_number = file_line_number;\n	p_current_pos->gcode_number = gcode_number;','	p_current_pos->gcode_number = gcode_number;\n	p_current_pos->file_line_number = file_line_number;'),
('P26',W,'  position* p_pre_pos = p_source_position_->get_previous_position_ptr();','  position* p_pre_pos = p_source_position_->get_position_ptr(1);'),
('P31',P,'	if (index >= num_extruders)','	if (index > num_extruders - 1)'),
('P31 P24',P,'	int tool_number = current_tool;\n	if (current_tool > num_extruders-1)\n		tool_number = num_extruders - 1;\n	else if (current_tool < 0)\n		tool_number = 0;\n	return p_extruders[tool_number];','	return get_extruder(current_tool);'),
('P31',G,'			pos->current_tool = static_cast<int>(p_cur_param.unsigned_long_value);\n			if (!zero_based_extruder_)\n			{\n				pos->current_tool--;\n			}','			int tool = static_cast<int>(p_cur_param.unsigned_long_value);\n			if (!zero_based_extruder_) tool -= 1;\n			pos->current_tool = tool;'),
('P31',L,'log_level < LOG_LEVEL_COUNT','log_level <= LOG_LEVEL_COUNT - 1'),
]
