AW='ArcWelder/arc_welder.cpp'
KEEP=[('P01 P02 P10 P11',AW,'  output_file_ << gcode << "\\n";',"  output_file_ << gcode << '\\n';"),
('P01 P02 P10 P11',AW,'  output_file_ << gcode << "\\n";','  output_file_ << (gcode + "\\n");'),
('P01 P02 P10 P11',AW,'  output_file_ << gcode << "\\n";','  output_file_.write(gcode.data(), gcode.size());\n  output_file_.put(\'\\n\');')]
BREAK=[]
KEEP=KEEP
BREAK=[('P01 P02',AW,'  output_file_ << gcode << "\\n";','  output_file_.write(gcode.data(), gcode.size() - 1);\n  output_file_.put(\'\\n\');'),
('P01 P02',AW,'  output_file_ << gcode << "\\n";',"  output_file_ << gcode << ' ';")]
