S='ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp'
D='ArcWelderInverseProcessor/'
M1=D+'marlin_1.cpp'; M2=D+'marlin_2.cpp'; PR=D+'prusa.cpp'; FW=D+'firmware.cpp'; FH=D+'firmware.h'; AI=D+'arc_interpolation.cpp'
def chk(name, arg):
    return ('      if (!args.firmware_args.is_argument_used(FIRMWARE_ARGUMENT_%s))\n      {\n        throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, %s_arg.toString());\n      }\n') % (name, arg)
BREAK=[
('P19',S,'      args.firmware_args.min_mm_per_arc_segment = min_mm_per_arc_segment_arg.getValue();','      args.firmware_args.mm_per_arc_segment = min_mm_per_arc_segment_arg.getValue();'),
('P19',S,'      args.firmware_args.min_arc_segments = min_arc_segments_arg.getValue();','      args.firmware_args.min_arc_segments = min_circle_segments_arg.getValue();'),
('P19',S,'is_argument_used(FIRMWARE_ARGUMENT_MIN_ARC_SEGMENTS)','is_argument_used(FIRMWARE_ARGUMENT_MIN_CIRCLE_SEGMENTS)'),
('P19',S,chk('MM_PER_ARC_SEGMENT','mm_per_arc_segment'),''),
('P19',S,'    if (n_arc_correction_arg.isSet())','    if (n_arc_correction_arg.getValue() > 1)'),
('P19',S,'    if (n_arc_correction_arg.isSet())','    if (n_arc_correction_arg.isSet() && args.firmware_args.is_argument_used(FIRMWARE_ARGUMENT_N_ARC_CORRECTION))'),
('P19',S,'= g90_arg.getValue() == "TRUE";','= g90_arg.getValue() != "TRUE";'),
('P19',S,'= g90_arg.getValue() == "TRUE";','= g90_arg.isSet();'),
('P19',S,'args.firmware_args.arc_segments_per_sec = arc_segments_per_sec_arg.getValue();','args.firmware_args.arc_segments_per_sec = (int)arc_segments_per_sec_arg.getValue();'),
('P19',S,'args.firmware_args.max_arc_segment_mm = max_arc_segment_mm_arg.getValue();','args.firmware_args.min_arc_segment_mm = max_arc_segment_mm_arg.getValue();'),
('P19',M2,'{ FIRMWARE_ARGUMENT_MIN_ARC_SEGMENT_MM, FIRMWARE_ARGUMENT_MAX_ARC_SEGMENT_MM, FIRMWARE_ARGUMENT_MIN_CIRCLE_SEGMENTS,','{ FIRMWARE_ARGUMENT_MIN_ARC_SEGMENT_MM, FIRMWARE_ARGUMENT_MAX_ARC_SEGMENT_MM, FIRMWARE_ARGUMENT_MIN_ARC_SEGMENTS,'),
('P19',M2,'{ FIRMWARE_ARGUMENT_MIN_ARC_SEGMENT_MM, FIRMWARE_ARGUMENT_MAX_ARC_SEGMENT_MM,','{ FIRMWARE_ARGUMENT_MIN_ARC_SEGMENT_MM,'),
('P19',M2,'      default_args.max_arc_segment_mm = 1.0f;\n',''),
('P19',PR,'{ FIRMWARE_ARGUMENT_MM_PER_ARC_SEGMENT, FIRMWARE_ARGUMENT_N_ARC_CORRECTION, FIRMWARE_ARGUMENT_G90_G91_INFLUENCES_EXTRUDER };','{ FIRMWARE_ARGUMENT_MM_PER_ARC_SEGMENT, FIRMWARE_ARGUMENT_MIN_ARC_SEGMENTS, FIRMWARE_ARGUMENT_N_ARC_CORRECTION, FIRMWARE_ARGUMENT_G90_G91_INFLUENCES_EXTRUDER };'),
('P19',FW,'  return args_.g90_g91_influences_extruder;','  return true;'),
]
KEEP=[
('P19',S,'      args.firmware_args.min_mm_per_arc_segment = min_mm_per_arc_segment_arg.getValue();','      const double min_mm_per_arc_segment = min_mm_per_arc_segment_arg.getValue();\n      args.firmware_args.min_mm_per_arc_segment = min_mm_per_arc_segment;'),
('P19',S,'= g90_arg.getValue() == "TRUE";','= (g90_arg.getValue() != "TRUE") ? false : true;'),
('P19',[(S,'int run_arc_straightener(','static void require_used(firmware_arguments& arguments, const std::string& name, const std::string& id)\n{\n  if (!arguments.is_argument_used(name)) throw TCLAP::ArgException("The argument does not apply.", id);\n}\n\nint run_arc_straightener('),(S,chk('MM_PER_ARC_SEGMENT','mm_per_arc_segment'),'      require_used(args.firmware_args, FIRMWARE_ARGUMENT_MM_PER_ARC_SEGMENT, mm_per_arc_segment_arg.toString());\n')]),
('P19',S,'    if (mm_per_arc_segment_arg.isSet())\n    {\n      // See if this argument is supported\n'+chk('MM_PER_ARC_SEGMENT','mm_per_arc_segment')+'      args.firmware_args.mm_per_arc_segment = mm_per_arc_segment_arg.getValue();\n    }','    const bool length_given = mm_per_arc_segment_arg.isSet();\n    if (length_given && !args.firmware_args.is_argument_used(FIRMWARE_ARGUMENT_MM_PER_ARC_SEGMENT))\n    {\n      throw TCLAP::ArgException("The argument does not apply.", mm_per_arc_segment_arg.toString());\n    }\n    if (length_given)\n    {\n      args.firmware_args.mm_per_arc_segment = mm_per_arc_segment_arg.getValue();\n    }'),
('P19',M2,'{ FIRMWARE_ARGUMENT_MIN_ARC_SEGMENT_MM, FIRMWARE_ARGUMENT_MAX_ARC_SEGMENT_MM,','{ FIRMWARE_ARGUMENT_MAX_ARC_SEGMENT_MM, FIRMWARE_ARGUMENT_MIN_ARC_SEGMENT_MM,'),
('P19',M2,'      default_args.min_arc_segment_mm = 0.1f;\n      default_args.max_arc_segment_mm = 1.0f;\n','      default_args.max_arc_segment_mm = 1.0f;\n      default_args.min_arc_segment_mm = 0.1f;\n'),
('P19',FW,'  return args_.g90_g91_influences_extruder;','  const bool influences = args_.g90_g91_influences_extruder;\n  return influences;'),
('P19',AI,'gcode_position(get_args_(p_current_firmware_->get_g90_g91_influences_extruder(), DEFAULT_GCODE_BUFFER_SIZE))','gcode_position(get_args_(args.firmware_args.g90_g91_influences_extruder, DEFAULT_GCODE_BUFFER_SIZE))'),
]
