UT='GcodeProcessorLib/utilities.cpp'; AW='ArcWelder/arc_welder.cpp'; SH='ArcWelder/segmented_shape.cpp'; FP='GcodeProcessorLib/fpconv.cpp'; GP='GcodeProcessorLib/gcode_parser.cpp'; SA='ArcWelder/segmented_arc.cpp'
DIST='double utilities::get_cartesian_distance(double x1, double y1, double x2, double y2)\n{\n'
BREAK=[
('P33',UT,DIST,DIST+'	static int n_ = 0; n_++;\n'),
('P33',UT,DIST,'static double last_x = 0;\n'+DIST+'	if (last_x > 100) x1 += 0; last_x = x1;\n'),
('P33',SH,'double segmented_shape::get_resolution_mm()\n{\n  return resolution_mm_;','double segmented_shape::get_resolution_mm()\n{\n  static const double r = resolution_mm_;\n  return r;'),
('P33',SH,'unsigned char segmented_shape::get_xyz_precision() const\n{\n','unsigned char segmented_shape::get_xyz_precision() const\n{\n  static std::vector<int> seen; seen.push_back(1);\n'),
('P33',FP,'  for (divp = tens + 10; kappa > 0; divp++) {\n','  for (divp = tens + 10; kappa > 0; divp++) {\n    if (kappa == 11) *divp = 1;\n'),
('P33',GP,'bool gcode_parser::try_parse_gcode(const char* gcode, parsed_command& command)\n{\n','static parsed_command last_command;\nbool gcode_parser::try_parse_gcode(const char* gcode, parsed_command& command)\n{\n  last_command = command;\n'),
('P33',AW,'void arc_welder::reset()\n{\n','static int runs_ = 0;\nvoid set_runs(int r) { runs_ = r; }\nvoid arc_welder::reset()\n{\n  if (runs_ > 3) lines_processed_ = 1;\n'),
('P33',UT,DIST,DIST+'	x1 += rand() * 0.0;\n'),
('P33',FP,'    unsigned long long div = *divp;\n','    unsigned long long div = *divp; tens[0] = div;\n'),
('P33',FP,'  Fp w = build_fp(d);\n','  static Fp w; w = build_fp(d);\n'),
('P33',SH,'double segmented_shape::get_resolution_mm()\n{\n','namespace { struct Cfg { double r; } cfg_; }\nstatic void keep(Cfg* c, double r) { c->r = r; }\ndouble segmented_shape::get_resolution_mm()\n{\n  keep(&cfg_, resolution_mm_);\n'),
]
KEEP=[
('P33',UT,DIST,DIST+'	static const int n_ = 3; x1 += n_ - 3;\n'),
('P33',UT,DIST,'static const double zero_ = 0;\n'+DIST+'	x1 += zero_;\n'),
('P33',FP,'    unsigned long long div = *divp;\n','    const unsigned long long* q_ = divp;\n    unsigned long long div = *q_;\n'),
('P33',UT,DIST,'static int unused_ = 0;\nint count_unused() { return unused_++; }\n'+DIST),
('P33',GP,'	char * p_gcode = const_cast<char *>(gcode);','	static const char blank = \' \';\n	char * p_gcode = const_cast<char *>(gcode);\n	if (*p_gcode == blank && false) return false;'),
]
