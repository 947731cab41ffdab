C='ArcWelderConsole/ArcWelderConsole.cpp'; S='ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp'
A='ArcWelder/arc_welder.cpp'; H='ArcWelder/arc_welder.h'; P='GcodeProcessorLib/position.cpp'
W='PyArcWelder/py_arc_welder.cpp'; SA='ArcWelder/segmented_arc.cpp'; SS='ArcWelder/segmented_shape.cpp'; G='GcodeProcessorLib/gcode_position.cpp'
BREAK=[
('P12',C,'    if (args.resolution_mm <= 0)\n','    if (args.resolution_mm < 0)\n'),
('P12',C,'    if (args.path_tolerance_percent >= 1.0)','    if (args.path_tolerance_percent > 1.0)'),
('P12',C,'    if (args.path_tolerance_percent >= 1.0)','    if (args.path_tolerance_percent >= 1.0 && args.allow_3d_arcs)'),
('P12',C,'    if (args.mm_per_arc_segment < 0)','    if (args.mm_per_arc_segment < -1)'),
('P12',C,'    if (args.min_arc_segments < 0)','    if (args.min_arc_segments < -1)'),
('P12',C,'if (args.mm_per_arc_segment != 0.0 && args.min_arc_segments == 0)','if (args.mm_per_arc_segment > 1.0 && args.min_arc_segments == 0)'),
('P12',C,'    else if (args.mm_per_arc_segment == 0.0 && args.min_arc_segments != 0)','    else if (args.mm_per_arc_segment == 0.0 && args.min_arc_segments > 1)'),
('P12',C,'    if (default_xyz_precision_arg.getValue() < 3)','    if (args.default_xyz_precision < 3)'),
('P12',C,'    if (default_xyz_precision_arg.getValue() > 6)','    if (args.default_xyz_precision > 6)'),
('P12',C,'    if (default_e_precision_arg.getValue() > 6)','    if (default_xyz_precision_arg.getValue() > 6)'),
('P12',C,'    if (default_e_precision_arg.getValue() < 3)','    if (default_e_precision_arg.getValue() <= 3)'),
('P12',C,'    if (args.extrusion_rate_variance_percent < 0)','    if (args.extrusion_rate_variance_percent < 0 && args.allow_dynamic_precision)'),
('P12',C,'args.max_gcode_length < 31)','args.max_gcode_length < 30)'),
('P12',C,'    if (args.max_gcode_length < 0)','    if (args.max_gcode_length < -31)'),
('P12',C,'    if (args.max_radius_mm <= 0)\n','    if (args.max_radius_mm == 0)\n'),
('P12',C,'    if (args.max_radius_mm <= 0)\n','    if (args.max_radius_mm <= 0 || args.max_radius_mm > 1000000)\n'),
('P12',C,'    if (args.path_tolerance_percent <= 0)\n','    if (args.path_tolerance_percent <= 0.001)\n'),
('P12',C,'    if (!utilities::does_file_exist(args.source_path))','    if (!utilities::does_file_exist(args.target_path))'),
('P12',C,'      return exit_exception.getExitStatus();','      return 0;'),
('P12',C,'    catch (TCLAP::ExitException& exit_exception)\n    {\n      return exit_exception.getExitStatus();','    catch (TCLAP::ExitException& exit_exception)\n    {\n      if (args.max_radius_mm < 0) return 0;\n      return exit_exception.getExitStatus();'),
('P12',C,'    // ensure the source file exists\n','    std::remove((args.target_path + ".tmp").c_str());\n'),
('P12',C,'    // ensure the source file exists\n','    { std::ofstream touched(args.target_path.c_str(), std::ios::app); }\n'),
('P12',S,'  catch (TCLAP::ExitException& e) {\n    // raised after an invalid argument was reported\n    return e.getExitStatus();\n  }','  '),
('P12',C,'  catch (TCLAP::ArgException& e)\n  {\n    // This','  catch (TCLAP::CmdLineParseException& e)\n  {\n    // This'),
('P12',C,'    args.max_gcode_length = max_gcode_length_arg.getValue();','    args.max_gcode_length = static_cast<unsigned char>(max_gcode_length_arg.getValue());'),
('P12',C,'    args.resolution_mm = resolution_arg.getValue();','    args.resolution_mm = std::fabs(resolution_arg.getValue());'),
('P12',C,'    arg_description_stream << "The maximum allowed deviation','    arg_description_stream << "The maximum allowed deviation') if False else
('P12',A,'arc_welder_results arc_welder::process()\n{','arc_welder_results arc_welder::process()\n{\n  if (resolution_mm_ <= 0) throw std::exception();'),
('P13',C,'    args.min_arc_segments = min_arc_segments_arg.getValue();\n','    args.min_arc_segments = max_gcode_length_arg.getValue();\n'),
('P13',C,'    args.allow_3d_arcs = allow_3d_arcs_arg.getValue();','    args.allow_3d_arcs = allow_3d_arcs_arg.getValue() && !allow_travel_arcs_arg.getValue();'),
('P13',C,'    args.allow_travel_arcs = allow_travel_arcs_arg.getValue();\n',''),
('P13',C,'    args.mm_per_arc_segment = mm_per_arc_segment_arg.getValue();','    args.mm_per_arc_segment = static_cast<int>(mm_per_arc_segment_arg.getValue());'),
('P13',C,'    if (args.target_path.size() == 0)','    if (args.target_path.size() == 0 || args.source_path.size() > 255)') if False else
('P13',C,'    args.target_path = target_arg.getValue();','    args.target_path = source_arg.getValue();'),
('P13',C,'    args.g90_g91_influences_extruder = g90_arg.getValue();','    args.g90_g91_influences_extruder = g90_arg.isSet() || allow_dynamic_precision_arg.getValue();'),
('P13',A,'        args.path_tolerance_percent,\n        args.max_radius_mm,','        args.resolution_mm,\n        args.max_radius_mm,'),
('P13',A,'        args.min_arc_segments,\n','        args.max_gcode_length,\n'),
('P13',A,'        args.default_xyz_precision,\n        args.default_e_precision,','        args.default_e_precision,\n        args.default_xyz_precision,'),
('P13',A,'    allow_travel_arcs_ = args.allow_travel_arcs;','    allow_travel_arcs_ = args.allow_travel_arcs && !args.g90_g91_influences_extruder;'),
('P13',A,'    allow_dynamic_precision_ = args.allow_dynamic_precision;','    allow_dynamic_precision_ = args.allow_3d_arcs;'),
('P13',A,'  args.g90_influences_extruder = g90_g91_influences_extruder;','  args.g90_influences_extruder = !g90_g91_influences_extruder;'),
('P13',SA,'  if (mm_per_arc_segment_ < 0 || utilities::is_zero(mm_per_arc_segment_))','  if (mm_per_arc_segment_ < 0.1)'),
('P13',SA,'  max_radius_mm_ = max_radius_mm;\n','  max_radius_mm_ = DEFAULT_MAX_RADIUS_MM;\n'),
('P13',SS,'  resolution_mm_ = resolution_mm / 2.0; // divide','  resolution_mm_ = resolution_mm; // divide'),
('P13',SS,'  path_tolerance_percent_ = path_tolerance_percnet;','  path_tolerance_percent_ = resolution_mm;'),
('P13',G,'	g90_influences_extruder_ = args.g90_influences_extruder;','	g90_influences_extruder_ = args.g90_influences_extruder && args.is_bound_;'),
('P13',W,'PyDict_GetItemString(py_args, "allow_travel_arcs")','PyDict_GetItemString(py_args, "allow_3d_arcs")'),
('P13',W,'    args.path_tolerance_percent = gcode_arc_converter::PyFloatOrInt_AsDouble(py_path_tolerance_percent);','    args.path_tolerance_percent = gcode_arc_converter::PyFloatOrInt_AsDouble(py_resolution_mm);'),
('P13',W,'    args.g90_g91_influences_extruder = PyLong_AsLong(py_g90_g91_influences_extruder) > 0;','    args.g90_g91_influences_extruder = PyLong_AsLong(py_g90_g91_influences_extruder) > 1;'),
('P13',W,'    if (args.resolution_mm <= 0)','    if (args.resolution_mm <= 0.01)'),
('P13',W,'    if (args.max_radius_mm > DEFAULT_MAX_RADIUS_MM)','    if (args.max_radius_mm > 1000)'),
('P13',W,'    args.allow_3d_arcs = PyLong_AsLong(py_allow_3d_arcs) > 0;','    args.allow_travel_arcs = PyLong_AsLong(py_allow_3d_arcs) > 0;'),
('P13',W,'  args.target_path = target_path;','  args.target_path = source_path;'),
('P13',H,'			extrusion_rate_variance_percent = DEFAULT_EXTRUSION_RATE_VARIANCE_PERCENT,','			extrusion_rate_variance_percent = 0.5,'),
('P13',H,'			allow_3d_arcs = DEFAULT_ALLOW_3D_ARCS,','			allow_3d_arcs = true,'),
('P13',C,'"max-radius-mm", arg_description_stream.str(), false, DEFAULT_MAX_RADIUS_MM,','"max-radius-mm", arg_description_stream.str(), false, 1000,'),
]
KEEP=[
('P13',C,'    args.allow_3d_arcs = allow_3d_arcs_arg.getValue();\n    args.allow_travel_arcs = allow_travel_arcs_arg.getValue();','    args.allow_travel_arcs = allow_travel_arcs_arg.getValue();\n    args.allow_3d_arcs = allow_3d_arcs_arg.isSet() ? allow_3d_arcs_arg.getValue() : allow_3d_arcs_arg.getValue();'),
('P13',C,'    if (args.target_path.size() == 0)\n    {\n      args.target_path = args.source_path;\n    }','    if (args.target_path.empty())\n      args.target_path = source_arg.getValue();'),
('P13',C,'    args.target_path = target_arg.getValue();\n\n    if (args.target_path.size() == 0)\n    {\n      args.target_path = args.source_path;\n    }','    const std::string target = target_arg.getValue();\n    args.target_path = target == "" ? args.source_path : target;'),
('P13',SA,'  max_radius_mm_ = max_radius_mm;\n  if (max_radius_mm > DEFAULT_MAX_RADIUS_MM) {\n    max_radius_mm_ = DEFAULT_MAX_RADIUS_MM;\n  }','  max_radius_mm_ = max_radius_mm > DEFAULT_MAX_RADIUS_MM ? DEFAULT_MAX_RADIUS_MM : max_radius_mm;'),
('P13',SA,'  max_radius_mm_ = max_radius_mm;\n  if (max_radius_mm > DEFAULT_MAX_RADIUS_MM) {\n    max_radius_mm_ = DEFAULT_MAX_RADIUS_MM;\n  }','  max_radius_mm_ = std::min(max_radius_mm, (double)DEFAULT_MAX_RADIUS_MM);'),
('P13',SS,'  resolution_mm_ = resolution_mm / 2.0; // divide','  resolution_mm_ = resolution_mm * 0.5; // divide'),
('P13',W,'    args.allow_3d_arcs = PyLong_AsLong(py_allow_3d_arcs) > 0;','    const long allow_3d_arcs = PyLong_AsLong(py_allow_3d_arcs);\n    args.allow_3d_arcs = allow_3d_arcs >= 1;'),
('P13',[(W,'bool py_gcode_arc_args::parse_args(','static bool read_flag(PyObject* py_args, const char* key, py_logger* p_py_logger, bool default_value)\n{\n  PyObject* py_flag = PyDict_GetItemString(py_args, key);\n  if (py_flag == NULL)\n  {\n    return default_value;\n  }\n  return PyLong_AsLong(py_flag) > 0;\n}\n\nbool py_gcode_arc_args::parse_args('),(W,'    args.allow_3d_arcs = PyLong_AsLong(py_allow_3d_arcs) > 0;','    args.allow_3d_arcs = read_flag(py_args, "allow_3d_arcs", p_py_logger, args.allow_3d_arcs);')]),
('P13',W,'    if (default_xyz_precision < 3)','    if (!(default_xyz_precision >= 3))'),
('P13',H,'			allow_3d_arcs = DEFAULT_ALLOW_3D_ARCS,\n			allow_travel_arcs = DEFAULT_ALLOW_TRAVEL_ARCS,','			allow_travel_arcs = DEFAULT_ALLOW_TRAVEL_ARCS,\n			allow_3d_arcs = DEFAULT_ALLOW_3D_ARCS,'),

('P12 P13',C,'    if (args.resolution_mm <= 0)\n','    if (!(args.resolution_mm > 0))\n'),
('P12 P13',C,'    if (args.path_tolerance_percent <= 0)\n    {\n        throw TCLAP::ArgException("The provided value is less than or equal to 0.", path_tolerance_percent_arg.toString());\n    }\n\n    if (args.path_tolerance_percent >= 1.0)\n    {\n        throw TCLAP::ArgException("The provided value is greater than or equal to 1 (100%).", path_tolerance_percent_arg.toString());','    if (args.path_tolerance_percent <= 0 || args.path_tolerance_percent >= 1.0)\n    {\n        throw TCLAP::ArgException("The provided value is not between 0 and 1 (100%).", path_tolerance_percent_arg.toString());'),
('P12 P13',[(C,'    if (args.mm_per_arc_segment < 0)\n    {\n        throw TCLAP::ArgException("The provided value is negative.", mm_per_arc_segment_arg.toString());\n    }\n',''),(C,'    if (args.max_radius_mm <= 0)\n','    if (mm_per_arc_segment_arg.getValue() < 0.0)\n    {\n        throw TCLAP::ArgException("The provided value is negative.", mm_per_arc_segment_arg.toString());\n    }\n    if (args.max_radius_mm <= 0)\n')]),
('P12 P13',[(C,'int main(int argc','static void require_at_least(int value, int minimum, const std::string& id)\n{\n  if (value < minimum) throw TCLAP::ArgException("The provided value is too small.", id);\n}\n\nint main(int argc'),(C,'    if (default_xyz_precision_arg.getValue() < 3)\n    {\n        throw TCLAP::ArgException("The provided value is less than 3.", default_xyz_precision_arg.toString());\n    }','    require_at_least(default_xyz_precision_arg.getValue(), 3, default_xyz_precision_arg.toString());')]),
('P12 P13',C,'    if (args.max_gcode_length < 0)\n    {\n        throw TCLAP::ArgException("The provided value is negative.", max_gcode_length_arg.toString());\n    }\n\n    if (args.max_gcode_length > 0 && args.max_gcode_length < 31)','    if (args.max_gcode_length != 0 && args.max_gcode_length < 31)'),
('P12 P13',C,'    args.default_xyz_precision = static_cast<unsigned char>(default_xyz_precision_arg.getValue());','    const int xyz_precision = default_xyz_precision_arg.getValue();\n    args.default_xyz_precision = static_cast<unsigned char>(xyz_precision);'),
('P12 P13',C,'    try\n    {\n      cmd.getOutput()->failure(cmd, e);\n    }\n    catch (TCLAP::ExitException& exit_exception)\n    {\n      return exit_exception.getExitStatus();\n    }\n    return 1;','    try\n    {\n      cmd.getOutput()->failure(cmd, e);\n    }\n    catch (TCLAP::ExitException&)\n    {\n    }\n    return 1;'),
('P12 P13',C,'    bool found','    bool found') if False else
('P12 P13',C,'    if (args.min_arc_segments < 0)\n','    if (min_arc_segments_arg.getValue() <= -1)\n'),
('P12 P13',C,'if (args.mm_per_arc_segment != 0.0 && args.min_arc_segments == 0)\n    {\n        throw','const bool has_length = args.mm_per_arc_segment != 0.0;\n    if (has_length && args.min_arc_segments == 0)\n    {\n        throw'),
('P12',S,'  try {\n    return run_arc_straightener(argc, argv);\n  }','  int status = 1;\n  try {\n    status = run_arc_straightener(argc, argv);\n    return status;\n  }'),
]
