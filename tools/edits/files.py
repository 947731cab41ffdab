U='GcodeProcessorLib/utilities.cpp'; A='ArcWelder/arc_welder.cpp'; I='ArcWelderInverseProcessor/arc_interpolation.cpp'; S='ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp'; C='ArcWelderConsole/ArcWelderConsole.cpp'
BREAK=[
('P10',A,'    target_path_ = temp_file_path;\n','    if (resolution_mm_ > 0.01) target_path_ = temp_file_path;\n'),
('P10',A,'  if (overwrite_source_file && !results.success)','  if (overwrite_source_file && !results.success && write_failed)'),
('P10',A,'  if (overwrite_source_file && !results.success)','  if (overwrite_source_file && results.cancelled)'),
('P10',A,'  const bool write_failed = output_file_.fail();','  const bool write_failed = output_file_.fail() && arcs_created_ > 0;'),
('P10',A,'  output_file_.close();\n  // A failed write or close sets the fail bit, a failed read the bad bit (reaching the end of the file does not).\n  const bool write_failed = output_file_.fail();','  const bool write_failed = output_file_.fail();\n  output_file_.close();'),
('P10',A,'  if (utilities::is_same_file(source_path_, target_path_))\n','  if (utilities::is_same_file(source_path_, target_path_) && file_size_ > 0)\n'),
('P10',A,'  else if (overwrite_source_file)\n','  else if (overwrite_source_file || arcs_created_ == 0)\n'),
('P10',A,'std::rename(target_path_.c_str(), source_path_.c_str()) == 0','std::rename(target_path_.c_str(), (source_path_ + ".gcode").c_str()) == 0'),
('P10',A,'  gcodeFile.open(source_path_.c_str(), std::ifstream::in);','  std::rename(source_path_.c_str(), (source_path_ + ".bak").c_str());\n  gcodeFile.open(source_path_.c_str(), std::ifstream::in);'),
('P10',A,'    replaced = replaced && std::rename','    replaced = replaced || std::rename'),
('P10',A,'    if (!replaced)\n    {\n      results.success = false;','    if (!replaced)\n    {\n      std::remove(target_path_.c_str());\n      results.success = false;'),
('P10',A,'  output_file_ << lines_to_write;\n  return size;','  output_file_ << lines_to_write;\n  if (!output_file_) std::remove(source_path_.c_str());\n  return size;'),
('P11',A,'    results.message = "Unable to open the target file.";\n','    results.message = "";\n'),
('P11',A,'  while (continue_processing && std::getline(gcodeFile, line))','  while (std::getline(gcodeFile, line) && continue_processing)'),
('P11',A,'        continue_processing = on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));\n        next_update_time','        on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));\n        next_update_time'),
('P11',A,'  results.success = continue_processing;','  results.success = true;'),
('P11',A,'  results.cancelled = !continue_processing;','  results.cancelled = !results.success && lines_processed_ > 0;'),
('P11',A,'  write_unwritten_gcodes_to_file();\n\n  p_logger_->log(logger_type_, log_levels::DEBUG, "Fetching','  if (continue_processing) write_unwritten_gcodes_to_file();\n\n  p_logger_->log(logger_type_, log_levels::DEBUG, "Fetching'),
('P11',A,'  if (write_failed || read_failed)\n','  if (write_failed)\n'),
('P11',A,'    results.success = false;\n    results.message = "Unable to open the target file.";\n','    results.message = "Unable to open the target file.";\n    results.success = file_size_ == 0;\n'),
('P11',A,'    return progress_callback_(progress, p_logger_, logger_type_);','    progress_callback_(progress, p_logger_, logger_type_);\n    return true;'),
('P11',C,'  return results.success ? 0 : 1;','  return results.success || results.cancelled ? 0 : 1;'),
('P11',A,'  if (!gcodeFile.is_open())\n  {\n    results.success = false;','  if (!gcodeFile.is_open() && file_size_ > 0)\n  {\n    results.success = false;'),
('P11',A,'  continue_processing = on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));\n  p_logger_','  on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));\n  p_logger_'),
('P20',I,'      if (gcode_file.bad())','      if (gcode_file.bad() && num_arc_commands_ == 0)'),
('P20',I,'      else if (!output_file_)','      else if (!output_file_.is_open() && false)'),
('P20',I,'      output_file_.close();\n      if (gcode_file.bad())','      if (gcode_file.bad())'),
('P20',I,'      std::cout << "Unable to open the output file for writing.\\n";','      std::cout << "Unable to open the output file for writing.\\n";\n      success = true;'),
('P20',S,'    args.target_path = temp_file_path;\n','    if (temp_file_path.length() < 256) args.target_path = temp_file_path;\n'),
('P20',S,'    p_logger->log(0, log_levels::ERROR, "Interpolation failed.");\n    return 1;','    p_logger->log(0, log_levels::ERROR, "Interpolation failed.");\n    return overwrite_source_file ? 1 : 0;'),
('P20',S,'    p_logger->log(0, log_levels::ERROR, "Interpolation failed.");\n    return 1;','    p_logger->log(0, log_levels::ERROR, "Interpolation failed.");\n    if (!overwrite_source_file) return 1;'),
('P20',S,'      p_logger->log(0, log_levels::ERROR, "The temporary file could not be renamed, it contains the processed gcode.");\n      return 1;','      p_logger->log(0, log_levels::ERROR, "The temporary file could not be renamed, it contains the processed gcode.");'),
('P20',S,'      p_logger->log(0, log_levels::ERROR, "The temporary file could not be renamed, it contains the processed gcode.");\n      return 1;','      std::remove(args.target_path.c_str());\n      return 1;'),
('P20',S,'  if (utilities::is_same_file(args.source_path, args.target_path))\n','  if (utilities::is_same_file(args.source_path, args.target_path) && args.source_path.length() > 1)\n'),
('P20',S,'    return run_arc_straightener(argc, argv);','    run_arc_straightener(argc, argv);\n    return 0;'),
('P10',A,'  if (utilities::is_same_file(source_path_, target_path_))\n','  if (source_path_ == target_path_)\n'),
('P20',S,'  if (utilities::is_same_file(args.source_path, args.target_path))\n','  if (args.source_path == args.target_path)\n'),
('P10 P20',U,'first_stat.st_dev == second_stat.st_dev && first_stat.st_ino == second_stat.st_ino','first_stat.st_dev == second_stat.st_dev && first_stat.st_ino == second_stat.st_ino && first_stat.st_nlink == 1'),
('P10 P20',U,'first_stat.st_dev == second_stat.st_dev && first_stat.st_ino == second_stat.st_ino','first_stat.st_ino == second_stat.st_ino'),
('P10 P20',U,'	if (stat(first_path.c_str(), &first_stat) != 0 || stat(second_path.c_str(), &second_stat) != 0)','	if (lstat(first_path.c_str(), &first_stat) != 0 || lstat(second_path.c_str(), &second_stat) != 0)'),
]
KEEP=[
('P10 P20',U,'	if (stat(first_path.c_str(), &first_stat) != 0 || stat(second_path.c_str(), &second_stat) != 0)\n	{\n		return false;\n	}\n	return first_stat.st_dev == second_stat.st_dev && first_stat.st_ino == second_stat.st_ino;','	const bool both_exist = stat(second_path.c_str(), &second_stat) == 0 && stat(first_path.c_str(), &first_stat) == 0;\n	return both_exist && first_stat.st_ino == second_stat.st_ino && first_stat.st_dev == second_stat.st_dev;'),
('P10 P11',A,'  if (utilities::is_same_file(source_path_, target_path_))\n  {\n    overwrite_source_file = true;','  overwrite_source_file = source_path_.compare(target_path_) == 0 || utilities::is_same_file(source_path_, target_path_);\n  if (overwrite_source_file)\n  {'),
('P10 P11',A,'  if (utilities::is_same_file(source_path_, target_path_))\n  {\n    overwrite_source_file = true;','  overwrite_source_file = utilities::is_same_file(target_path_, source_path_);\n  if (overwrite_source_file)\n  {'),
('P10 P11',A,'  const bool write_failed = output_file_.fail();\n  const bool read_failed = gcodeFile.bad();','  const bool write_failed = !output_file_;\n  const bool read_failed = !gcodeFile.eof() && gcodeFile.bad();'),
('P10 P11',A,'  while (continue_processing && std::getline(gcodeFile, line))\n  {','  while (continue_processing)\n  {\n    if (!std::getline(gcodeFile, line)) break;'),
('P10 P11',A,'    bool replaced = std::remove(source_path_.c_str()) == 0;\n','    bool replaced = true;\n    if (std::remove(source_path_.c_str()) != 0) replaced = false;\n'),
('P10 P11',A,'  results.success = continue_processing;\n  results.cancelled = !continue_processing;','  results.cancelled = !continue_processing;\n  results.success = !results.cancelled;'),
('P10 P11',[(A,'  results.success = continue_processing;\n  results.cancelled = !continue_processing;\n  results.progress = final_progress;\n\n  if (write_failed || read_failed)\n  {\n    results.success = false;','  results.cancelled = !continue_processing;\n  results.progress = final_progress;\n  results.success = continue_processing && !write_failed && !read_failed;\n  if (write_failed || read_failed)\n  {\n')]),
('P10 P11',[(A,'arc_welder_results arc_welder::process()\n{','static bool replace_file(const std::string& from, const std::string& to)\n{\n  if (std::remove(to.c_str()) != 0) return false;\n  return std::rename(from.c_str(), to.c_str()) == 0;\n}\n\narc_welder_results arc_welder::process()\n{'),(A,'    bool replaced = std::remove(source_path_.c_str()) == 0;\n','    bool replaced = replace_file(target_path_, source_path_);\n'),(A,'    replaced = replaced && std::rename(target_path_.c_str(), source_path_.c_str()) == 0;\n','')]),
('P11',A,'  if (progress_callback_ != NULL)\n  {\n    return progress_callback_(progress, p_logger_, logger_type_);\n  }','  bool keep_going = true;\n  if (progress_callback_ != NULL)\n  {\n    keep_going = progress_callback_(progress, p_logger_, logger_type_);\n    return keep_going;\n  }'),
('P11',C,'  return results.success ? 0 : 1;','  if (!results.success) return 1;\n  return 0;'),
('P11',C,'  delete p_arc_welder;\n  return results.success ? 0 : 1;','  const int status = results.success ? 0 : 1;\n  delete p_arc_welder;\n  return status;'),
('P20',I,'      if (gcode_file.bad())\n      {\n        std::cout << "An error occurred while reading the gcode file.\\n";\n      }\n      else if (!output_file_)\n      {\n        std::cout << "An error occurred while writing the output file.\\n";\n      }\n      else\n      {\n        success = true;\n      }','      success = !gcode_file.bad() && !output_file_.fail();\n      if (!success) std::cout << "An error occurred.\\n";'),
('P20',S,'  if (!interpolator.process())\n  {','  const bool processed = interpolator.process();\n  if (!processed)\n  {'),
('P20',S,'    if (std::remove(args.source_path.c_str()) != 0)\n    {','    int removed = std::remove(args.source_path.c_str());\n    if (removed != 0)\n    {'),
('P20',I,'  if (gcode_file.is_open())\n  {\n    if (output_file_.is_open())\n    {','  const bool source_open = gcode_file.is_open();\n  const bool target_open = output_file_.is_open();\n  if (source_open)\n  {\n    if (target_open)\n    {'),
('P20 P10 P11',I,'  const clock_t end_clock = clock();','  const clock_t end_clock = clock(); // end'),
]
