AL='GcodeProcessorLib/array_list.h'; CB='GcodeProcessorLib/circular_buffer.h'; PO='GcodeProcessorLib/position.cpp'; PH='GcodeProcessorLib/position.h'; GP='GcodeProcessorLib/gcode_position.cpp'; GH='GcodeProcessorLib/gcode_position.h'; AW='ArcWelder/arc_welder.cpp'; LG='GcodeProcessorLib/logger.cpp'; AI='ArcWelderInverseProcessor/arc_interpolation.cpp'; FW='ArcWelderInverseProcessor/firmware.h'; M1='ArcWelderInverseProcessor/marlin_1.cpp'; SM='ArcWelderInverseProcessor/smoothieware.cpp'; SS='ArcWelder/segmented_shape.h'; SC='ArcWelder/segmented_shape.cpp'; AC='ArcWelderConsole/ArcWelderConsole.cpp'
BREAK=[
('P29',AL,'		delete[] items_;\n		items_ = new_items;','		items_ = new_items;'),
('P29',AL,'	virtual ~array_list() {\n		delete[] items_;','	virtual ~array_list() {\n		delete items_;'),
('P29',CB,'	virtual ~circular_buffer() {\n		delete[] items_;','	virtual ~circular_buffer() {\n		if (count_ > 0) delete[] items_;'),
('P29',PO,'		delete[] p_extruders;\n		p_extruders = NULL;','		delete[] p_extruders;'),
('P29',GP,'		delete[] z_lift_heights;\n		z_lift_heights = NULL;','		delete[] z_lift_heights;'),
('P29',GH,'		delete_x_firmware_offsets();\n		delete_y_firmware_offsets();\n	}','		delete_x_firmware_offsets();\n	}'),
('P29',GP,'	delete_retraction_lengths();\n	delete_z_lift_heights();\n	delete_x_firmware_offsets();\n	delete_y_firmware_offsets();\n	num_extruders','	delete_retraction_lengths();\n	delete_x_firmware_offsets();\n	delete_y_firmware_offsets();\n	num_extruders'),
('P29',LG,'	delete[] logger_levels_;','	delete logger_levels_;'),
('P29',LG,'	delete[] logger_names_;\n',''),
('P29',M1,'	delete[] current_position;','	delete current_position;'),
('P29',FW,'  virtual ~firmware() {}','  ~firmware() {}'),
('P29',AW,'  delete p_source_position_;','  p_source_position_ = NULL;'),
('P29',AI,'    delete p_current_firmware_;\n','    delete p_current_firmware_; delete p_source_position_;\n'),
('P29',PO,'	delete_extruders();\n	num_extruders = num_extruders_;','	num_extruders = num_extruders_;'),
('P29',SS,'	segmented_shape& operator=(const segmented_shape& pos);\n','	segmented_shape& operator=(const segmented_shape& pos);\n	segmented_shape(const segmented_shape& o) : points_(o.points_) {}\n'),
('P29',AW,'  delete p_source_position_;','  segmented_arc a_ = current_arc_; delete p_source_position_; if (a_.get_num_segments() < 0) return;'),
('P29',SM,'    delete THEKERNEL;','    delete[] THEKERNEL;'),
]
KEEP=[
('P29',PO,'		delete[] p_extruders;\n		p_extruders = NULL;','		extruder* old = p_extruders;\n		p_extruders = NULL;\n		delete[] old;'),
('P29',AL,'		front_index_ = 0;\n		delete[] items_;\n		items_ = new_items;','		T* old_items = items_;\n		items_ = new_items;\n		delete[] old_items;\n		front_index_ = 0;'),
('P29',AI,'  if (p_current_firmware_ != NULL)\n  {\n    delete p_current_firmware_;\n','  {\n    delete p_current_firmware_;\n'),
('P29',GP,'	if (retraction_lengths != NULL)\n	{\n		delete[] retraction_lengths;\n		retraction_lengths = NULL;\n	}','	if (retraction_lengths == NULL) return;\n	delete[] retraction_lengths;\n	retraction_lengths = NULL;'),
]
