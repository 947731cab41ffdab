AS='ArcWelder/arc_welder.cpp'; SS='ArcWelder/segmented_shape.cpp'; PO='GcodeProcessorLib/position.cpp'; GP='GcodeProcessorLib/gcode_position.cpp'; GH='GcodeProcessorLib/gcode_position.h'; FP='GcodeProcessorLib/fpconv.cpp'; EX='GcodeProcessorLib/extruder.cpp'; SA='ArcWelder/segmented_arc.cpp'; LG='GcodeProcessorLib/logger.cpp'; AI='ArcWelderInverseProcessor/arc_interpolation.cpp'; FW='ArcWelderInverseProcessor/firmware.h'; AH='ArcWelder/arc_welder.h'; PH='PyArcWelder/py_arc_welder.h'
BREAK=[
('P28',EX,'	z_firmware_offset = 0;\n',''),
('P28',PO,'	x_homed = false;\n	y = 0;','	y = 0;'),
('P28',LG,'		logger_levels_[index] = levels[index];\n',''),
('P28',GP,'		z_lift_heights_[index] = args.z_lift_heights[index];\n',''),
('P28',AI,'  p_current_firmware_ = NULL;\n}','}'),
('P28',PH,'		log_level = INFO;\n		guid = progress_guid;','		guid = progress_guid;'),
('P28',FP,'  fp.exp = (bits & expmask) >> 52;\n','  if (bits & expmask) fp.exp = (bits & expmask) >> 52;\n'),
('P28',GP,'	z_lift_heights_ = NULL;\n	// Configure Extruders','	// Configure Extruders'),
('P28',EX,'	extrusion_length = 0;\n','	extrusion_length = extrusion_length_total;\n'),
('P28',PO,'	num_extruders = 0;\n	set_num_extruders(extruder_count);','	set_num_extruders(extruder_count);'),
]
KEEP=[
('P28 P27',EX,'	z_firmware_offset = 0;\n	','	z_firmware_offset = 0.0;\n	'),
('P28',GP,'		z_lift_heights_[index] = args.z_lift_heights[index];\n','		double h = args.z_lift_heights[index];\n		z_lift_heights_[index] = h;\n'),
]
