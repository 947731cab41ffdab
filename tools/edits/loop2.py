IP='ArcWelderInverseProcessor/';PP='GcodeProcessorLib/position.cpp'; PO='GcodeProcessorLib/gcode_position.cpp'; PA='GcodeProcessorLib/gcode_parser.cpp'; AI=IP+'arc_interpolation.cpp'; AR='GcodeProcessorLib/array_list.h'; CB='GcodeProcessorLib/circular_buffer.h'
KEEP=[
('P15 P20 P36',AI,'''          if(r==0)
          {
            r = utilities::hypot(i, j);
          }
''','''          r = r == 0 ? utilities::hypot(i, j) : r;
'''),
('P15 P20 P36',AI,'''          if (gcodes.length() > 0)
          {
            // there are gcodes to write, write them!
            output_file_ << gcodes << "\\n";
          }''','''          if (!gcodes.empty())
            output_file_ << gcodes << '\\n';'''),
('P30',CB,'''		int pos = get_index_position(count_ - 1);
		count_--;
		return items_[pos];''','''		count_--;
		return items_[get_index_position(count_)];'''),
('P30',CB,'''		while (index_position >= max_size_)
		{
			index_position = index_position - max_size_;
		}
		return index_position;''','''		return index_position % max_size_;'''),
('P15',AI,'''        if (cmd.command == "G2" || cmd.command == "G3")
        {''','''        const bool is_arc = cmd.command == "G2" || cmd.command == "G3";
        if (is_arc)
        {'''),
('P15 P36',AI,'''          is_clockwise = cmd.command == "G2" ? 1 : 0;''','''          is_clockwise = cmd.command == "G2";'''),
('P15',AI,'''        cmd.clear();
        parser.try_parse_gcode(line.c_str(), cmd);
        bool has_gcode = false;
        if (cmd.gcode.length() > 0)
        {
          has_gcode = true;
          gcodes_processed++;
        }
        else
        {
          lines_with_no_commands++;
        }
''','''        cmd.clear();
        parser.try_parse_gcode(line.c_str(), cmd);
        if (cmd.gcode.empty())
          lines_with_no_commands++;
        else
          gcodes_processed++;
'''),
]
BREAK=[
('P15',AI,"          i = 0;\n          j = 0;\n          r = 0;","          r = 0;"),
('P15',AI,"          target.f = p_cur_pos->f;","          target.f = p_pre_pos->f;"),
('P15',AI,"current.e = p_pre_pos->get_current_extruder().get_offset_e();","current.e = p_pre_pos->get_current_extruder().e;"),
('P15',AI,"state.is_extruder_relative = p_pre_pos->is_extruder_relative;","state.is_extruder_relative = p_pre_pos->is_relative;"),
('P15',AI,"        cmd.clear();\n","        if (lines_processed_ == 1) cmd.clear();\n"),
('P15',AI,"          p_current_firmware_->set_current_position(current);\n",""),
('P15',AI,"            r = utilities::hypot(i, j);","            r = utilities::hypot(i, i);"),
('P30',CB,"				front_index_ = max_size_ - 1;","				front_index_ = count_ - 1;") if 0 else ('P30',CB,"			front_index_ = max_size_ - 1;","			front_index_ = count_;"),
('P30',CB,"		if (front_index_ >= max_size_)\n		{\n			front_index_ = 0;","		if (front_index_ > max_size_)\n		{\n			front_index_ = 0;"),
('P30',CB,"			front_index_ = get_index_position(1);","			front_index_ = get_index_position(2);"),
('P30',CB,"		int pos = get_index_position(count_ - 1);\n		count_--;","		count_--;\n		int pos = get_index_position(count_ - 1);"),
('P20',AI,"      else if (!output_file_)","      else if (!output_file_ && lines_processed_ == 0)"),
('P20',AI,"      output_file_.close();\n      if (gcode_file.bad())","      if (gcode_file.bad())"),
]
