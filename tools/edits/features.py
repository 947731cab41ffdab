CP='GcodeProcessorLib/gcode_comment_processor.cpp'; GP='GcodeProcessorLib/gcode_position.cpp'
BREAK=[
('P38',CP,'	if (comment == "infill" || comment == "move to first infill point")\n	{\n		pos.feature_type_tag = feature_type_infill_feature;','	if (comment == "infill" || comment == "move to first infill point")\n	{\n		pos.feature_type_tag = feature_type_bridge_feature;'),
('P38',CP,'comment == "move to first skirt point"','comment == "move to first skirts point"'),
('P38',CP,'		pos.feature_type_tag = feature_type_skirt_feature;\n		break;\n	case(section_type_solid','		pos.feature_type_tag = feature_type_skirt_feature;\n	case(section_type_solid'),
('P38',CP,'	if (processing_type_ == comment_process_type_unknown || processing_type_ == comment_process_type_slic3r_pe)\n','	if (processing_type_ != comment_process_type_off)\n'),
('P38',CP,'comment.rfind("LAYER:", 0) != std::string::npos','comment.rfind("LAYER:", 0) == std::string::npos'),
('P38',CP,'comment.rfind("feature", 0) != std::string::npos','comment.rfind("features", 0) != std::string::npos'),
('P38',CP,'		if (comment == "gap fill")','		if (comment.find("fill") != std::string::npos)'),
('P38',CP,'	case comment_process_type_cura:\n		update_cura_section(comment);','	case comment_process_type_cura:\n		update_simplify_3d_section(comment);'),
('P38',CP,'		processing_type_ = comment_process_type_simplify_3d;\n		return;','		processing_type_ = comment_process_type_cura;\n		return;'),
('P38',CP,'	return false;\n}\n\nvoid gcode_comment_processor::update_feature_from_section','	pos.feature_type_tag = feature_type_unknown_feature;\n	return false;\n}\n\nvoid gcode_comment_processor::update_feature_from_section'),
('P38',CP,'	if (comment == "CP TOOLCHANGE END")\n	{\n		current_section_ = section_type_no_section;','	if (comment == "CP TOOLCHANGE END")\n	{\n'),
('P38',GP,'	comment_processor_.update(*p_current_pos);\n\n	if (!command.is_known_command || command.is_empty)\n		return;','	if (!command.is_known_command || command.is_empty)\n		return;\n	comment_processor_.update(*p_current_pos);'),
('P38',CP,'	if (comment == "TYPE:SKIN")\n	{','	if (comment == "TYPE:SKIN" || comment == "TYPE:SKIN-OUTER")\n	{'),
('P38',CP,'comment.rfind("LAYER:", 0) != std::string::npos','comment.rfind("LAYER:", 0) == 0 && comment != "LAYER:0"'),
('P38',CP,' || comment.rfind(";MESH:NONMESH", 0) != std::string::npos',''),
]
KEEP=[
('P38',CP,'	if (processing_type_ == comment_process_type_off)\n		return;\n\n	if (current_section_ != section_type_no_section)','	if (current_section_ != section_type_no_section)'),
('P38',CP,'	if (comment == "TYPE:FILL")\n	{\n		current_section_ = section_type_infill_section;\n		return true;\n	}','	const std::string fill = "TYPE:FILL";\n	if (comment.compare(fill) == 0)\n	{\n		current_section_ = section_type_infill_section;\n		return true;\n	}'),
('P38',CP,'comment.rfind("LAYER:", 0) != std::string::npos','comment.substr(0, 6) == "LAYER:"'),
('P38',CP,'	if (comment.length() == 0)\n		return;','	if (comment.empty()) return;'),
('P38',CP,'	if (comment == "TYPE:SKIRT")','	if (comment == "TYPE:SUPPORT")\n	{\n		return false;\n	}\n	if (comment == "TYPE:SKIRT")'),
('P38',CP,'	if (processing_type_ == comment_process_type_off)\n		return;\n\n	if (current_section_ != section_type_no_section)\n	{\n		update_feature_from_section(pos);\n		return;\n	}','	const bool off = processing_type_ == comment_process_type_off;\n	if (off) return;\n	const bool inside = current_section_ != section_type_no_section;\n	if (inside) { update_feature_from_section(pos); return; }'),
('P38',GP,'	comment_processor_.update(*p_current_pos);\n','	position& cur = *p_current_pos;\n	comment_processor_.update(cur);\n'),
]
