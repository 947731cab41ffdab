A='ArcWelder/arc_welder.cpp'; H='ArcWelder/arc_welder.h'; U='ArcWelder/unwritten_command.h'
BREAK=[
('P14',A,'segment_statistics_.update(movement_length_mm, true);','segment_statistics_.update(movement_length_mm, false);'),
('P14',A,'      if (!is_reprocess)\n      {\n        if (is_extrusion)','      {\n        if (is_extrusion)'),
('P14',A,'        if (is_extrusion)\n        {\n          segment_statistics_.update(movement_length_mm','        if (!is_travel)\n        {\n          segment_statistics_.update(movement_length_mm'),
('P14',A,'        else if (allow_travel_arcs_ && is_travel)','        else if (is_travel)'),
('P14',A,'    if (movement_length_mm > 0)\n    {','    if (movement_length_mm > resolution_mm_)\n    {'),
('P14',A,'        points_compressed_ += current_arc_.get_num_segments() - 1;','        points_compressed_ += current_arc_.get_num_segments();'),
('P14',A,'        arcs_created_++; // increment','        if (!is_end) arcs_created_++; // increment'),
('P14',A,'      if (p.is_extrusion)\n','      if (p.is_extrusion || p.is_travel)\n'),
('P14',A,'    if ((p.is_g0_g1 || p.is_g2_g3) && p.length > 0)','    if (p.is_g0_g1 && p.length > 0)'),
('P14',A,'      else if (p.is_travel && allow_travel_arcs_) {','      else if (p.is_travel && allow_3d_arcs_) {'),
('P14',A,'        segment_statistics_.update(p.length, false);','        segment_statistics_.update(p.length, p.is_g2_g3);'),
('P14',A,'is_previous_extruder_relative, is_extrusion, is_retraction, is_travel, movement_length_mm)','is_previous_extruder_relative, is_retraction, is_extrusion, is_travel, movement_length_mm)'),
('P14',A,'is_previous_extruder_relative, is_extrusion, is_retraction, is_travel, movement_length_mm)','is_previous_extruder_relative, is_extrusion, is_retraction, is_travel, mm_extruded_per_mm_travel)'),
('P14',U,'is_travel(is_travel), is_g0_g1','is_travel(is_extrusion), is_g0_g1'),
('P14',U,'gcode(cmd.gcode), comment(cmd.comment), length(command_length)','gcode(cmd.gcode), comment(cmd.comment), length(is_retraction ? 0 : command_length)'),
('P14',A,'  bool is_retraction = shape_e_relative < 0;','  bool is_retraction = shape_e_relative <= 0;'),
('P14',A,'    segment_statistics_.update(current_arc_.get_shape_length(), false);','    segment_statistics_.update(current_arc_.get_shape_length(), true);'),
('P14',A,'    travel_statistics_.update(current_arc_.get_shape_length(), false);','    travel_statistics_.update(movement_, false);'.replace('movement_','current_arc_.get_shape_e_relative()')),
('P14',A,'  else if (allow_travel_arcs_ ) {','  else if (allow_travel_arcs_ && allow_3d_arcs_) {'),
('P14',H,'			total_count_target++;','			total_count_source++;'),
('P14',H,'		if (length <= 0)\n			return;','		if (length <= 0.01)\n			return;'),
('P14',H,'			total_length_source += length;','			total_length_source = length;'),
('P14',H,'(stat.min_mm <= length && stat.max_mm > length) ||','(stat.min_mm < length && stat.max_mm > length) ||'),
('P14',H,'				stat.count++;\n				break;','				stat.count++;'),
('P14',H,'			stats = &target_segments;','			stats = &source_segments;'),
('P14',A,'  progress.arcs_created = arcs_created_;','  progress.arcs_created = points_compressed_;'),
('P14',A,'movement_length_mm = utilities::get_cartesian_distance(p_pre_pos->x, p_pre_pos->y, p_cur_pos->x, p_cur_pos->y);','movement_length_mm = utilities::get_cartesian_distance(p_pre_pos->x, p_cur_pos->y, p_cur_pos->x, p_cur_pos->y);'),
('P14',A,'  if (p_cur_pos->has_xy_position_changed)\n','  if (p_cur_pos->has_xy_position_changed && !waiting_for_arc_)\n'),
('P14',A,'  bool is_extrusion = extruder_current.e_relative > 0;','  bool is_extrusion = previous_extruder.e_relative > 0;'),
('P14',A,'  int lines_written = 0;\n','  int lines_written = 0;\n  if (is_end) arcs_created_++;\n'),
]
KEEP=[
('P14',A,'        else if (allow_travel_arcs_ && is_travel)','        else if (is_travel && allow_travel_arcs_)'),
('P14',A,'  bool is_travel = !(is_extrusion || is_retraction) && (is_g0_g1 || is_g2_g3);','  bool is_travel = (is_g0_g1 || is_g2_g3) && !is_extrusion && !is_retraction;'),
('P14',A,'    if (movement_length_mm > 0)\n    {','    if (0 < movement_length_mm)\n    {'),
('P14',A,'      if (!is_reprocess)\n      {\n        if (is_extrusion)','      if (is_reprocess == false)\n      {\n        if (is_extrusion)'),
('P14',A,'        arcs_created_++; // increment','        arcs_created_ += 1; // increment'),
('P14',A,'        points_compressed_ += current_arc_.get_num_segments() - 1;','        const int removed = current_arc_.get_num_segments() - 1;\n        points_compressed_ = points_compressed_ + removed;'),
('P14',H,'		if (length <= 0)\n			return;','		if (!(length > 0))\n			return;'),
('P14',H,'			total_count_target++;','			++total_count_target;'),
('P14',H,'				stat.count++;\n				break;','				stat.count += 1;\n				return;'),
('P14',H,'		std::vector<segment_statistic>* stats;\n		if (is_source)\n		{','		std::vector<segment_statistic>* stats = is_source ? &source_segments : &target_segments;\n		if (is_source)\n		{'),
('P14',A,'  double shape_e_relative = current_arc_.get_shape_e_relative();\n  bool is_retraction','  const double shape_e_relative = current_arc_.get_shape_e_relative();\n  const double len = current_arc_.get_shape_length(); (void)len;\n  bool is_retraction'),
('P14',A,'    unwritten_command p = unwritten_commands_.pop_front();\n    if ((p.is_g0_g1 || p.is_g2_g3) && p.length > 0)\n    {\n\n      if (p.is_extrusion)','    unwritten_command p = unwritten_commands_.pop_front();\n    const bool counted = p.length > 0 && (p.is_g2_g3 || p.is_g0_g1);\n    if (counted)\n    {\n      if (p.is_extrusion)'),
('P14',A,'      if (!is_reprocess)\n      {\n        if (is_extrusion)\n        {\n          segment_statistics_.update(movement_length_mm, true);\n        }\n        else if (is_retraction)\n        {\n            segment_retraction_statistics_.update(movement_length_mm, true);\n        }\n        else if (allow_travel_arcs_ && is_travel)\n        {\n          travel_statistics_.update(movement_length_mm, true);\n        }\n\n      }','      if (!is_reprocess)\n      {\n        source_target_segment_statistics* st = NULL;\n        if (is_extrusion) st = &segment_statistics_;\n        else if (is_retraction) st = &segment_retraction_statistics_;\n        else if (allow_travel_arcs_ && is_travel) st = &travel_statistics_;\n        if (st != NULL) st->update(movement_length_mm, true);\n      }'),
]
