A='ArcWelder/arc_welder.cpp'
QU="    unwritten_commands_.push_back(unwritten_command(cmd, is_previous_extruder_relative, is_extrusion, is_retraction, is_travel, movement_length_mm));"
BREAK=[
# P01
('P01',A,'  if (waiting_for_arc_ || !arc_added)\n','  if ((waiting_for_arc_ || !arc_added) && !is_reprocess)\n'),
('P01',A,'          return process_gcode(cmd, false, true);','          return 0;'),
('P01',A,'  int size = unwritten_commands_.count();\n  std::string lines_to_write;','  int size = unwritten_commands_.count() - 1;\n  std::string lines_to_write;'),
('P01',A,'    unwritten_command p = unwritten_commands_.pop_front();\n    if ((p','    unwritten_command p = unwritten_commands_.pop_back();\n    if ((p'),
('P01',A,'    lines_to_write.append(p.to_string()).append("\\n");','    if (!p.is_g2_g3) lines_to_write.append(p.to_string()).append("\\n");'),
('P01',A,'  output_file_ << lines_to_write;\n  return size;','  if (size > 1) output_file_ << lines_to_write;\n  return size;'),
('P01','ArcWelder/unwritten_command.h','gcode + ";" + comment','gcode + comment'),
# P02
('P02',A,'  int num_segments = current_arc_.get_num_segments() - 1;\n  for','  int num_segments = current_arc_.get_num_segments();\n  for'),
('P02',A,'    while (!unwritten_commands_.pop_back().is_g0_g1);','    unwritten_commands_.pop_back();'),
('P02',A,'  // Write everything that hasn\'t yet been written	\n  write_unwritten_gcodes_to_file();','  // x'),
('P02',A,'  p_source_position_->undo_update();','  if (current_feedrate > 0) p_source_position_->undo_update();'),
('P02',A,'  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))','  if (!arc_added && (is_end || !cmd.is_empty))'),
('P02',A,'        write_arc_gcodes(p_pre_pos->f);\n        // Now clear the arc and flag the processor as not waiting for an arc\n        waiting_for_arc_ = false;\n        current_arc_.clear();','        write_arc_gcodes(p_pre_pos->f);\n        // Now clear the arc and flag the processor as not waiting for an arc\n        waiting_for_arc_ = false;'),
('P02',A,'        current_arc_.clear();\n        waiting_for_arc_ = false;\n      }','        waiting_for_arc_ = false;\n      }'),
('P02',A,'  int num_moves = current_arc_.get_num_segments() - 1;','  int num_moves = current_arc_.get_num_segments() - 2;'),
('P02',A,'          return process_gcode(cmd, false, true);','          return process_gcode(cmd, false, false);'),
('P02 P01',A,'          return process_gcode(cmd, false, true);','          return process_gcode(cmd, true, true);'),
# P03
('P03',A,'      is_g0_g1 && z_axis_ok &&','      (is_g0_g1 || is_g2_g3) && z_axis_ok &&'),
('P03',A,'      is_g0_g1 && z_axis_ok &&','      is_g0_g1 &&'),
('P03',A,'      utilities::is_equal(p_cur_pos->y_offset, p_pre_pos->y_offset) &&\n','      utilities::is_equal(p_cur_pos->x_offset, p_pre_pos->x_offset) &&\n'),
('P03',A,'      utilities::is_equal(p_cur_pos->z_firmware_offset, p_pre_pos->z_firmware_offset) &&\n',''),
('P03',A,'      !p_cur_pos->is_relative &&','      !p_pre_pos->is_relative &&'),
('P03',A,'        extruder_current.is_retracting ||','        extruder_current.is_retracting || previous_extruder.is_extruding ||'),
('P03',A,'        (allow_travel_arcs_ && p_cur_pos->is_travel())','        p_cur_pos->is_travel()'),
('P03',A,'p_cur_pos->is_extruder_relative == is_previous_extruder_relative &&',''),
('P03',A,'(!waiting_for_arc_ || p_pre_pos->f == p_cur_pos->f)','(!waiting_for_arc_ || p_pre_pos->f <= p_cur_pos->f)'),
('P03',A,'      (!waiting_for_arc_ || p_pre_pos->feature_type_tag == p_cur_pos->feature_type_tag)','      (waiting_for_arc_ || p_pre_pos->feature_type_tag == p_cur_pos->feature_type_tag)'),
('P03',A,'utilities::abs(utilities::get_percent_change(previous_extrusion_rate_, mm_extruded_per_mm_travel))','utilities::get_percent_change(previous_extrusion_rate_, mm_extruded_per_mm_travel)'),
('P03',A,'utilities::less_than_or_equal(extrusion_rate_change_percent, extrusion_rate_variance_percent_)) &&','utilities::less_than_or_equal(extrusion_rate_change_percent, extrusion_rate_variance_percent_ * 100)) &&'),
('P03 P02',A,'    printer_point p(p_cur_pos->get_gcode_x(), p_cur_pos->get_gcode_y(), p_cur_pos->get_gcode_z(),','    printer_point p(p_cur_pos->x, p_cur_pos->get_gcode_y(), p_cur_pos->get_gcode_z(),'),
('P03 P02',A,'printer_point previous_p(p_pre_pos->get_gcode_x(), p_pre_pos->get_gcode_y(), p_pre_pos->get_gcode_z()','printer_point previous_p(p_pre_pos->get_gcode_x(), p_pre_pos->get_gcode_y(), p_cur_pos->get_gcode_z()'),
]
KEEP=[
('P01 P02 P03',A,'  if (waiting_for_arc_ || !arc_added)\n','  if (!(arc_added && !waiting_for_arc_))\n'),
('P01 P02 P03',A,'  bool z_axis_ok = allow_3d_arcs_ ||\n    utilities::is_equal(p_cur_pos->z, p_pre_pos->z);','  bool z_axis_ok = true;\n  if (!allow_3d_arcs_)\n  {\n    z_axis_ok = utilities::is_equal(p_pre_pos->z, p_cur_pos->z);\n  }'),
('P01 P02 P03',A,'    while (!unwritten_commands_.pop_back().is_g0_g1);','    bool was_move = false;\n    do\n    {\n      unwritten_command removed = unwritten_commands_.pop_back();\n      was_move = removed.is_g0_g1;\n    } while (!was_move);'),
('P01 P02 P03',A,'  for (int index = 0; index < num_segments; index++)\n  {\n    while','  int removed_moves = 0;\n  while (removed_moves != num_segments)\n  {\n    removed_moves += 1;\n    while'),
('P01 P02 P03',A,'  for (int index = 0; index < size; index++)\n  {\n    // The','  while (unwritten_commands_.count() > 0)\n  {\n    // The'),
('P01 P02 P03',A,'    lines_to_write.append(p.to_string()).append("\\n");','    lines_to_write += p.to_string();\n    lines_to_write += "\\n";'),
('P01 P02 P03',A,'    if (waiting_for_arc_ || !arc_added)'.replace('    if','  if'),'  const bool queue_line = waiting_for_arc_ || !arc_added;\n  if (queue_line)'),
('P01 P02 P03',A,'  else if (!waiting_for_arc_)\n  {\n    write_unwritten','  else\n  {\n    write_unwritten'),
('P01 P02 P03',A,'        waiting_for_arc_ = false;\n        current_arc_.clear();\n        p_cur_pos','        current_arc_.clear();\n        waiting_for_arc_ = false;\n        p_cur_pos'),
('P01 P02 P03',A,'        points_compressed_ += current_arc_.get_num_segments() - 1;\n        arcs_created_++; // increment the number of generated arcs','        ++arcs_created_;\n        points_compressed_ += current_arc_.get_num_segments() - 1;'),
('P01 P02 P03',A,'      utilities::is_equal(p_cur_pos->x_offset, p_pre_pos->x_offset) &&','      utilities::abs(p_pre_pos->x_offset - p_cur_pos->x_offset) < 0.000005 &&'),
('P01 P02 P03',A,'  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))','  const bool blank_line = cmd.is_empty && cmd.comment.empty();\n  if (!arc_added && (is_end || !blank_line))'),
('P01 P02 P03',A,'      if (current_arc_.is_shape())\n      {','      const bool write_arc = current_arc_.is_shape();\n      if (write_arc)\n      {'),
('P01 P02 P03',A,'    std::string old_comment = unwritten_commands_[comment_index].comment;\n    if (old_comment != comment && old_comment.length() > 0)\n    {\n      if (comment.length() > 0)\n      {\n        comment += " - ";\n      }\n      comment += old_comment;\n    }','    const std::string& old_comment = unwritten_commands_[comment_index].comment;\n    if (old_comment.empty() || old_comment == comment)\n    {\n      continue;\n    }\n    if (!comment.empty())\n    {\n      comment.append(" - ");\n    }\n    comment.append(old_comment);'),
]
