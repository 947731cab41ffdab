"""Larger behaviour-preserving refactorings, as others might make them: all listed checks have to stay quiet."""
W='ArcWelder/arc_welder.cpp'; H='ArcWelder/arc_welder.h'; SA='ArcWelder/segmented_arc.cpp'; UT='GcodeProcessorLib/utilities.cpp'; PO='GcodeProcessorLib/gcode_position.cpp'
PH='GcodeProcessorLib/gcode_position.h'; GP='GcodeProcessorLib/gcode_parser.cpp'; FW='ArcWelderInverseProcessor/firmware.cpp'; AI='ArcWelderInverseProcessor/arc_interpolation.cpp'; FP='GcodeProcessorLib/fpconv.cpp'
BREAK=[]
KEEP=[
('P01 P02 P03 P14 P26 P28',W,'''      for (std::vector<parsed_command_parameter>::iterator it = cmd.parameters.begin(); it != cmd.parameters.end(); ++it)
      {
        switch ((*it).name[0])
        {
        case 'I':
          i = (*it).double_value;
          break;
        case 'J':
          j = (*it).double_value;
          break;
          // Note that the R form isn't fully implemented!
        case 'R':
          r = (*it).double_value;
          break;
        }
      }
''','''      for (const parsed_command_parameter& parameter : cmd.parameters)
      {
        const char letter = parameter.name[0];
        if (letter == 'I')
        {
          i = parameter.double_value;
        }
        else if (letter == 'J')
        {
          j = parameter.double_value;
        }
        else if (letter == 'R')
        {
          r = parameter.double_value;
        }
      }
'''),
('P01 P02 P03 P13 P14',W,'''    for (std::vector<parsed_command_parameter>::iterator it = cmd.parameters.begin(); it != cmd.parameters.end(); ++it)
    {
      switch ((*it).name[0])
      {
      case 'X':
      case 'Y':
      case 'Z':
        current_arc_.update_xyz_precision((*it).double_precision);
        break;
      case 'E':
        current_arc_.update_e_precision((*it).double_precision);
        break;
      }
    }
''','''    for (const parsed_command_parameter& parameter : cmd.parameters)
    {
      const char letter = parameter.name[0];
      if (letter == 'X' || letter == 'Y' || letter == 'Z')
      {
        current_arc_.update_xyz_precision(parameter.double_precision);
      }
      else if (letter == 'E')
      {
        current_arc_.update_e_precision(parameter.double_precision);
      }
    }
'''),
('P21 P22',GP,'	try_extract_comment(&p_gcode, &(command.comment));','	p = p_gcode;\n	try_extract_comment(&p, &(command.comment));'),
('P01 P02 P14',W,'''  int size = unwritten_commands_.count();
  std::string lines_to_write;

  for (int index = 0; index < size; index++)
  {''','''  const int size = unwritten_commands_.count();
  std::string lines_to_write;

  int remaining = size;
  while (remaining > 0)
  {
    remaining--;'''),
('P01 P02 P14',W,'''    lines_to_write.append(p.to_string()).append("\\n");''','''    lines_to_write += p.to_string();
    lines_to_write += "\\n";'''),
('P02 P14 P01',W,'''  double shape_e_relative = current_arc_.get_shape_e_relative();
  bool is_retraction = shape_e_relative < 0;
  bool is_extrusion = shape_e_relative > 0;
  if (is_extrusion)
  {
    segment_statistics_.update(current_arc_.get_shape_length(), false);

  }
  else if (is_retraction)
  {
      segment_retraction_statistics_.update(current_arc_.get_shape_length(), false);
  }
  else if (allow_travel_arcs_ ) {
    travel_statistics_.update(current_arc_.get_shape_length(), false);
  }
''','''  const double shape_e_relative = current_arc_.get_shape_e_relative();
  const double shape_length = current_arc_.get_shape_length();
  if (shape_e_relative < 0)
  {
      segment_retraction_statistics_.update(shape_length, false);
  }
  else if (shape_e_relative > 0)
  {
    segment_statistics_.update(shape_length, false);
  }
  else if (allow_travel_arcs_) {
    travel_statistics_.update(shape_length, false);
  }
'''),
('P02 P14 P01 P26',W,'''  for (int index = 0; index < num_segments; index++)
  {
    while (!unwritten_commands_.pop_back().is_g0_g1);
  }
''','''  int num_removed = 0;
  while (num_removed < num_segments)
  {
    if (unwritten_commands_.pop_back().is_g0_g1)
    {
      num_removed++;
    }
  }
'''),
('P07 P08 P02',SA,'''  int num_minus_signs = (
    (current_arc_.end_point.x < 0 ? 1 : 0) + 
    (current_arc_.end_point.y < 0 ? 1 : 0) +
    (i < 0 ? 1 : 0) +
    (j < 0 ? 1 : 0) +
    (has_e && e < 0 ? 1 : 0) +
    (has_z && current_arc_.end_point.z < 0 ? 1 : 0)
  );
''','''  int num_minus_signs = 0;
  if (current_arc_.end_point.x < 0) num_minus_signs++;
  if (current_arc_.end_point.y < 0) num_minus_signs++;
  if (has_z && current_arc_.end_point.z < 0) num_minus_signs++;
  if (i < 0) num_minus_signs++;
  if (j < 0) num_minus_signs++;
  if (has_e && e < 0) num_minus_signs++;
'''),
('P17 P16 P15 P36 P33',FW,'''  if (has_x)
  {
    gcode += is_first_parameter ? "X" : " X";
    gcode += utilities::dtos(state_.is_relative ? target.x - position_.x : target.x, 3);
    is_first_parameter = false;
  }

  if (has_y)
  {
    gcode += is_first_parameter ? "Y" : " Y";
    gcode += utilities::dtos(state_.is_relative ? target.y - position_.y : target.y, 3);
    is_first_parameter = false;
  }
''','''  const double x = state_.is_relative ? target.x - position_.x : target.x;
  const double y = state_.is_relative ? target.y - position_.y : target.y;
  if (has_x)
  {
    gcode += "X";
    gcode += utilities::dtos(x, 3);
    is_first_parameter = false;
  }

  if (has_y)
  {
    if (!is_first_parameter)
    {
      gcode += " ";
    }
    gcode += "Y";
    gcode += utilities::dtos(y, 3);
    is_first_parameter = false;
  }
'''),
('P15 P36 P16 P17',AI,'''            parsed_command_parameter p = cmd.parameters[index];
            if (p.name == "I")
            {
              i = p.double_value;
            }
            else if (p.name == "J")
            {
              j = p.double_value;
            }
            else if (p.name == "R")
            {
              r = p.double_value;
            }
''','''            const std::string& name = cmd.parameters[index].name;
            const double value = cmd.parameters[index].double_value;
            if (name == "R")
            {
              r = value;
            }
            else if (name == "I")
            {
              i = value;
            }
            else if (name == "J")
            {
              j = value;
            }
'''),
('P24 P25 P31',PO,'''	if (!o_exists && !update_x && !update_y && !update_z && !update_e)
	{''','''	const bool has_axis = update_x || update_y || update_z || update_e;
	if (!(o_exists || has_axis))
	{'''),
('P25 P24',PO,'''	if (is_g1_g0)
	{
		if (!update_e)
		{
			if (update_z)
			{
				pos->is_xyz_travel = (update_x || update_y);
			}
			else
			{
				pos->is_xy_travel = (update_x || update_y);
			}
		}

	}
''','''	if (is_g1_g0 && !update_e)
	{
		const bool moves_in_plane = update_x || update_y;
		if (!update_z)
		{
			pos->is_xy_travel = moves_in_plane;
		}
		else
		{
			pos->is_xyz_travel = moves_in_plane;
		}
	}
'''),
('P25 P31 P26',PO,'''			p_current_pos->get_current_extruder().retraction_length = p_current_pos->get_current_extruder().retraction_length - p_current_pos->get_current_extruder().e_relative;
			if (utilities::less_than_or_equal(p_current_pos->get_current_extruder().retraction_length, 0))
			{
				// we can use the negative retraction length to calculate our extrusion length!
				p_current_pos->get_current_extruder().extrusion_length = -1.0 * p_current_pos->get_current_extruder().retraction_length;
				// set the retraction length to 0 since we are extruding
				p_current_pos->get_current_extruder().retraction_length = 0;
			}
			else
				p_current_pos->get_current_extruder().extrusion_length = 0;
''','''			extruder& current_extruder = p_current_pos->get_current_extruder();
			const double retraction_length = current_extruder.retraction_length - current_extruder.e_relative;
			const bool is_retracted = utilities::greater_than(retraction_length, 0);
			current_extruder.extrusion_length = is_retracted ? 0 : -retraction_length;
			current_extruder.retraction_length = is_retracted ? retraction_length : 0;
'''),
('P10 P20 P34',UT,'''	for (int index = 0; index < file_parts.size() - 1; index++)
	{
		path += file_parts[index];
		path += PATH_SEPARATOR_;
	}
	return true;''','''	file_parts.pop_back();
	for (size_t index = 0; index < file_parts.size(); ++index)
	{
		path += file_parts[index] + PATH_SEPARATOR_;
	}
	return true;'''),
('P32 P23',FP,'''    for (int zero_index = terminator_location; zero_index >= length; zero_index--)
    {
      dest[zero_index] = '0';
    }
''','''    int zero_index = length;
    while (zero_index <= terminator_location)
    {
      dest[zero_index++] = '0';
    }
'''),
('P24 P25',[(PO,'''void gcode_position::process_m82(position* pos, parsed_command& cmd)
{
	// Set extrder mode to absolute
	if (pos->is_extruder_relative_null)
		pos->is_extruder_relative_null = false;

	pos->is_extruder_relative = false;
''','''static void set_extruder_relative(position* pos, bool is_relative)
{
	pos->is_extruder_relative_null = false;
	pos->is_extruder_relative = is_relative;
}

void gcode_position::process_m82(position* pos, parsed_command& cmd)
{
	set_extruder_relative(pos, false);
'''),(PO,'''	// Set extrder mode to relative
	if (pos->is_extruder_relative_null)
		pos->is_extruder_relative_null = false;

	pos->is_extruder_relative = true;
''','''	set_extruder_relative(pos, true);
''')]),
('P24 P31 P25',PO,'''		if (p_cur_param.name == "T" && p_cur_param.value_type == 'U')
		{
			pos->current_tool = static_cast<int>(p_cur_param.unsigned_long_value);
			if (!zero_based_extruder_)
			{
				pos->current_tool--;
			}
			if (pos->current_tool < 0)
			{
				pos->current_tool = 0;
			}
			else if (pos->current_tool > num_extruders_ - 1)
			{
				pos->current_tool = num_extruders_ - 1;
			}
			
			break;
''','''		if (p_cur_param.name == "T" && p_cur_param.value_type == 'U')
		{
			int tool = static_cast<int>(p_cur_param.unsigned_long_value);
			if (!zero_based_extruder_)
			{
				tool--;
			}
			const int last_tool = num_extruders_ - 1;
			pos->current_tool = tool < 0 ? 0 : tool > last_tool ? last_tool : tool;
			return;
'''),
]
