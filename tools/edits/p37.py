U='GcodeProcessorLib/utilities.cpp'
BREAK=[
('P37',U,'	return x > y && !is_equal(x, y, tolerance);','	return x > y || !is_equal(x, y, tolerance);'),
('P37',U,'	return x < y || is_equal(x, y);','	return x < y && is_equal(x, y);'),
('P37',U,'	return abs_difference < ZERO_TOLERANCE;','	return abs_difference <= ZERO_TOLERANCE;'),
('P37',U,'	return utilities::abs(x) < ZERO_TOLERANCE;','	return x < ZERO_TOLERANCE;'),
('P37',U,'xdif * xdif + ydif * ydif + zdif * zdif','xdif * xdif + ydif * ydif + zdif * ydif'),
('P37',U,'if (is_clockwise) { angular','if (!is_clockwise) { angular'),
('P37',U,'utilities::hypot(i, j)','utilities::hypot(i, i)'),
('P37',U,'(x < 10000 ? 4','(x < 1000 ? 4'),
('P37',U,'	if (x < y) {\n		double tmp = x;\n		x = y; y = tmp;\n	}\n	if (y == 0.0) return x;\n	y /= x;\n	return x * utilities::sqrt(1.0 + y * y);','	if (x < y) {\n		double tmp = x;\n		x = y; y = tmp;\n	}\n	if (y == 0.0) return x;\n	y /= x;\n	return x * utilities::sqrt(1.0 + y);'),
('P37','GcodeProcessorLib/utilities.h','ZERO_TOLERANCE 0.000005','ZERO_TOLERANCE 0.05'),
]
KEEP=[
('P37',U,'	double abs_difference = utilities::abs(x - y);\n	return abs_difference < tolerance;','	double d = y - x;\n	if (d < 0) { d = -d; }\n	if (d >= tolerance) return false;\n	return true;'),
('P37',U,'	return x < y || is_equal(x, y);','	return !greater_than(x, y);'),
('P37',U,'	double dist_squared = xdif * xdif + ydif * ydif;\n	return utilities::sqrt(dist_squared);','	return utilities::hypot(x2-x1, y1-y2);'),
('P37',U,'	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }\n	// Adjust the angular travel if the direction is clockwise\n	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }','	if (0 > angular_travel_total) { angular_travel_total = 2.0 * PI_DOUBLE + angular_travel_total; }\n	if (is_clockwise) angular_travel_total = angular_travel_total - PI_DOUBLE * 2.0;'),
]
