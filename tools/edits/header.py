W='ArcWelder/arc_welder.cpp'
ID='      bool isUltiGCode = line == ";FLAVOR:UltiGCode" || line == ";FLAVOR:UltiGCode\\r";'
HEAD='''      if (isUltiGCode || isPrusaSlicer)
      {
        write_gcode_to_file(line);
      }
      add_arcwelder_comment_to_target();
'''
BREAK=[
('P43',W,ID,'      bool isUltiGCode = line == ";FLAVOR:UltiGCode";'),
('P43',W,HEAD,'      add_arcwelder_comment_to_target();\n      if (isUltiGCode || isPrusaSlicer)\n      {\n        write_gcode_to_file(line);\n      }\n'),
('P43',W,HEAD,HEAD.replace('if (isUltiGCode || isPrusaSlicer)','if (isUltiGCode)')),
('P43',W,'line.rfind("; generated by PrusaSlicer", 0) == 0','line.rfind("; generated by PrusaSlicer", 0) > 0'),
('P43',W,'line.rfind("; generated by PrusaSlicer", 0) == 0','line == "; generated by PrusaSlicer"'),
('P43',W,'    if (lines_processed_ == 1)\n','    if (lines_processed_ <= 2)\n'),
('P43',W,'    if (lines_processed_ == 1)\n','    if (lines_processed_ == 2)\n'),
('P43',W,'line.rfind("; generated by PrusaSlicer", 0) == 0','line.find("; generated by PrusaSlicer") != std::string::npos'),
]
KEEP=[
('P43 P01',W,ID,'      const std::string first = line.length() > 0 && line[line.length() - 1] == \'\\r\' ? line.substr(0, line.length() - 1) : line;\n      bool isUltiGCode = first == ";FLAVOR:UltiGCode";'),
('P43 P01',W,HEAD,'      const bool is_identified = isUltiGCode || isPrusaSlicer;\n      if (is_identified)\n      {\n        write_gcode_to_file(line);\n      }\n      add_arcwelder_comment_to_target();\n'),
('P43',W,'line.rfind("; generated by PrusaSlicer", 0) == 0','line.compare(0, 26, "; generated by PrusaSlicer") == 0'),
('P43',W,'line.rfind("; generated by PrusaSlicer", 0) == 0','line.find("; generated by PrusaSlicer") == 0'),
('P43',W,'line.rfind("; generated by PrusaSlicer", 0) == 0','line.substr(0, std::string("; generated by PrusaSlicer").length()) == "; generated by PrusaSlicer"'),
('P43 P01',W,'    if (lines_processed_ == 1)\n','    const bool is_first_line = 1 == lines_processed_;\n    if (is_first_line)\n'),
('P43 P01',W,HEAD,'      if (!isUltiGCode && !isPrusaSlicer)\n      {\n        add_arcwelder_comment_to_target();\n      }\n      else\n      {\n        write_gcode_to_file(line);\n        add_arcwelder_comment_to_target();\n      }\n'),
('P43',W,'  while (continue_processing && std::getline(gcodeFile, line))','  for (; continue_processing && std::getline(gcodeFile, line);)'),
]
