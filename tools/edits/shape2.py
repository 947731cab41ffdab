SS='ArcWelder/segmented_shape.cpp';SA='ArcWelder/segmented_arc.cpp';AW='ArcWelder/arc_welder.cpp';IP='ArcWelderInverseProcessor/'
KEEP=[]
BREAK=[
('P05',SS,"  return center.x - start_point.x;","  return center.x - end_point.x;"),
('P05 P07 P36',SS,"  target_arc.center.y = c.center.y;","  target_arc.center.y = c.center.x;"),
('P05',SS,"  target_arc.end_point = end_point;","  target_arc.end_point = mid_point;"),
('P04',SS,"    direction = direction == DirectionEnum::COUNTERCLOCKWISE ? DirectionEnum::CLOCKWISE : DirectionEnum::COUNTERCLOCKWISE;",""),
('P04',SS,"double test_radians = utilities::abs(angle_radians - 2 * PI_DOUBLE);","double test_radians = utilities::abs(angle_radians - PI_DOUBLE);"),
('P04',SS,"if (perimeter <= approximate_length) {","if (perimeter < 0) {"),
('P04',SS,"if (index == 1) {\n          z_step","if (index <= 2) {\n          z_step"),
('P04',SS,"      arc_length = utilities::hypot(arc_length, end_point.z - start_point.z);","      arc_length = arc_length + (end_point.z - start_point.z);"),
('P04',SS,"double z1 = points[index - 1].z;","double z1 = points[0].z;"),
('P36 P02 P04',SS,"      angle_radians = polar_end_theta + ((2.0 * PI_DOUBLE) - polar_start_theta);","      angle_radians = polar_end_theta + (PI_DOUBLE - polar_start_theta);"),
('P04',SS,"    angle_radians *= -1.0;","    angle_radians *= 1.0;"),
]
PP='GcodeProcessorLib/position.cpp'; PO='GcodeProcessorLib/gcode_position.cpp'; PA='GcodeProcessorLib/gcode_parser.cpp'; AI=IP+'arc_interpolation.cpp'; AR='GcodeProcessorLib/array_list.h'; CB='GcodeProcessorLib/circular_buffer.h'
