G='GcodeProcessorLib/gcode_parser.cpp'
BREAK=[
('P22',G,"		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;","		if (*p == ';')\n		{\n			found_comment = true;\n			while (p[1] == ';')\n				p++;\n		}\n		p++;"),
('P22',G,"		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;\n	}\n","		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;\n	}\n	while (*p == ';' || *p == ' ')\n		p++;\n"),
('P21',G,"	while (*p != '\\0' && *p != ';' && *p!= ' ')\n	{\n		if (!found_command)","	while (*p != ';' && *p!= ' ')\n	{\n		if (!found_command)"),
('P21',G,"	while (*p != '\\0' && *p != ';')\n	{\n		(*p_parameter)","	while (*p != ';')\n	{\n		(*p_parameter)"),
('P21',G,"	while (*p != '\\0')\n	{\n		if (*p != '\\r' && *p != '\\n')","	while (*p != '\\n')\n	{\n		if (*p != '\\r' && *p != '\\n')"),
('P21',G,"	while (*p != '\\0' && !found_comment)","	while (!found_comment)"),
('P21',G,"		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;","		if (*p == ';')\n		{\n			found_comment = true;\n			p++;\n		}\n		p++;"),
('P21',G,"	// Check for negative sign\n	if (*p == '-') {\n		neg = true;\n		++p;","	// Check for negative sign\n	if (*p == '-') {\n		neg = true;\n		p += 2;"),
('P21',G,"		if (cur_char == '\\0' || cur_char == ';')\n			break;","		if (cur_char == ';')\n			break;"),
('P21',G,"			if (c == '\\0' || c == ';' || c == ' ' || c == '\\t')","			if (c == ';' || c == ' ' || c == '\\t')"),
('P21',G,"	else if (*p >= 'A' && *p <= 'Z')\n		parameter->name = *p++;\n	else\n		return false;","	else\n		parameter->name = *p++;"),
('P21',G,"			if (t_param == 'C' || t_param == 'X' || t_param == '?')\n","			if (t_param == 'C' || t_param == 'X' || t_param == '?' || t_param == '\\0')\n"),
('P21',G,"			while (*p_t == ' ' || *p_t == '\\t')\n			{\n				p_t++;\n			}\n			// create","			while (*p_t <= ' ')\n			{\n				p_t++;\n			}\n			// create"),
('P21',G,"		parameter->name = *p++;\n	else\n		return false;","		parameter->name = *p++;\n	else if (*p != ';')\n		return false;"),
('P21',G,"	// Ignore Leading Spaces\n	while (*p == ' ')\n	{\n		p++;\n	}\n	\n	// Deal with case sensitivity\n	if (*p >= 'a'","	// Ignore Leading Spaces\n	while (*p == ' ')\n	{\n	}\n	\n	// Deal with case sensitivity\n	if (*p >= 'a'"),
('P21',G,"	while (n > 0) {\n		r *= 10;\n		--n;","	while (n > 0) {\n		r *= 10;"),
('P21',G,"	*p_p_gcode = p;\n	return true;\n\n}\n\nbool gcode_parser::try_extract_t_parameter","	return true;\n\n}\n\nbool gcode_parser::try_extract_t_parameter"),
]
KEEP=[
('P22 P21',G,"	while (*p != '\\0' && !found_comment)\n	{\n		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;\n	}","	while (*p != '\\0' && *p != ';')\n	{\n		p++;\n	}\n	if (*p == ';')\n	{\n		found_comment = true;\n		p++;\n	}"),
('P22 P21',G,"	while (*p != '\\0' && !found_comment)\n	{\n		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;\n	}","	for (; *p != '\\0'; p++)\n	{\n		if (*p == ';')\n		{\n			p++;\n			break;\n		}\n	}"),
('P21',G,"	while (*p != '\\0' && *p != ';' && *p!= ' ')\n	{\n		if (!found_command)","	while (!(*p == ' ' || *p == ';' || *p == '\\0'))\n	{\n		if (!found_command)"),
('P21',G,"	while (*p != '\\0' && *p != ';')\n	{\n		(*p_parameter).push_back(*p++);\n	}","	for (; *p && *p != ';'; ++p)\n	{\n		const char c = *p;\n		p_parameter->push_back(c);\n	}"),
('P21',[(G,"bool gcode_parser::try_extract_gcode_command(","static char* skip_spaces(char* p)\n{\n	while (*p == ' ')\n	{\n		p++;\n	}\n	return p;\n}\n\nbool gcode_parser::try_extract_gcode_command("),(G,"	// Ignore Leading Spaces\n	while (*p == ' ')\n	{\n		p++;\n	}\n	\n	// Deal with case sensitivity\n	if (*p >= 'a'","	p = skip_spaces(p);\n	// Deal with case sensitivity\n	if (*p >= 'a'"),(G,"	char * p = *p_p_gcode;\n	bool neg = false;\n	double r = 0;\n	bool found_numbers = false;\n	// skip any leading whitespace\n	while (*p == ' ')\n		++p;","	char * p = skip_spaces(*p_p_gcode);\n	bool neg = false;\n	double r = 0;\n	bool found_numbers = false;")]),
('P21',[(G,"bool gcode_parser::try_extract_gcode_command(","static char take_upper(char*& p)\n{\n	const char c = *p++;\n	return (c >= 'a' && c <= 'z') ? c - 32 : c;\n}\n\nbool gcode_parser::try_extract_gcode_command("),(G,"		if (*p >= 'a' && *p <= 'z')\n			(*p_command).push_back(*p++ - 32);\n		else\n			(*p_command).push_back(*p++);\n		\n","		(*p_command).push_back(take_upper(p));\n")]),
('P21',[(G,"bool gcode_parser::try_extract_gcode_command(","static bool is_digit(char c)\n{\n	return c >= '0' && c <= '9';\n}\n\nbool gcode_parser::try_extract_gcode_command("),(G,"	while ((*p >= '0' && *p <= '9') || *p == ' ') {\n		if (*p != ' ')\n		{\n			found_numbers = true;\n			r = (r*10.0) + (*p - '0');","	while (is_digit(*p) || *p == ' ') {\n		if (*p != ' ')\n		{\n			found_numbers = true;\n			r = (r*10.0) + (*p - '0');")]),
('P21',G,"	while (n > 0) {\n		r *= 10;\n		--n;\n	}","	for (unsigned short i = 0; i < n; i++)\n	{\n		r *= 10;\n	}"),
('P21',G,"	while (*p != '\\0' && !found_comment)\n	{\n		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;\n	}","	while (*p != '\\0')\n	{\n		if (*p++ == ';')\n		{\n			found_comment = true;\n			break;\n		}\n	}"),
('P21',G,"	if (*p >= 'a' && *p <= 'z')\n		parameter->name = *p++ - 32;\n	else if (*p >= 'A' && *p <= 'Z')\n		parameter->name = *p++;\n	else\n		return false;","	const char letter = *p;\n	const bool lower = letter >= 'a' && letter <= 'z';\n	const bool upper = letter >= 'A' && letter <= 'Z';\n	if (!lower && !upper)\n		return false;\n	parameter->name = lower ? letter - 32 : letter;\n	p++;"),
('P21',G,"		char cur_char = *p_gcode;\n		if (cur_char == '\\0' || cur_char == ';')\n			break;","		const char cur_char = *p_gcode;\n		const bool at_end = cur_char == '\\0' || cur_char == ';';\n		if (at_end)\n			break;"),
]
C='GcodeProcessorLib/parsed_command.cpp'; W='ArcWelder/arc_welder.cpp'; I='ArcWelderInverseProcessor/arc_interpolation.cpp'
_K="		else if (cur_char > 32 || (cur_char == ' ' && has_seen_character))\n"
BREAK+=[
('P22',G,"		else if (preserve_format)\n		{\n			command.gcode.push_back(cur_char);\n		}\n		p_gcode++;","		p_gcode++;"),
('P22',G,"			else if (preserve_format) {\n				command.gcode.push_back(c);\n			}","			else if (has_control) {\n				command.gcode.push_back(c);\n			}") if False else
('P22',G,"			else if (preserve_format) {\n				command.gcode.push_back(c);\n			}\n",""),
('P22',G,"			if (!preserve_format && !is_text_only_parameter","			if (!is_text_only_parameter"),
('P22',G,"		if (cur_char == '\\0' || cur_char == ';')\n","		if (cur_char == '\\0' || cur_char == ';' || cur_char == '(')\n"),
('P22',G,"	if (!preserve_format){\n		command.gcode = utilities::rtrim(command.gcode);\n	}\n","	if (!preserve_format){\n		command.gcode = utilities::rtrim(command.gcode);\n	}\n	if (command.is_empty)\n		return false;\n"),
('P22',G,"		if (*p != '\\r' && *p != '\\n')\n		{\n			// Dont't","		if (*p != '\\r' && *p != '\\n' && *p != ';')\n		{\n			// Dont't"),
('P22',G,"		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;\n	}\n","		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;\n	}\n	while (*p == ' ')\n		p++;\n"),
('P22',G,"	while (*p != '\\0')\n	{\n		if (*p != '\\r' && *p != '\\n')","	while (*p != '\\0' && *p != ';')\n	{\n		if (*p != '\\r' && *p != '\\n')"),
('P22',G,"			if (!try_extract_text_parameter(&p, &(text_command.string_value)))","			if (!try_extract_text_parameter(&p, &(text_command.string_value)) || text_command.string_value.empty())"),
('P22',C,"	comment.clear();\n",""),
('P22',C,"	is_empty = true;\n}\n\nstd::string","}\n\nstd::string"),
('P22',W,"\n    cmd.clear();\n    if (verbose","\n    if (verbose"),
('P22',I,"\n        cmd.clear();\n        parser","\n        parser"),
('P22',W,"parser_.try_parse_gcode(line.c_str(), cmd, true)","parser_.try_parse_gcode(line.c_str(), cmd, false)"),
]
KEEP+=[
('P22',G,"		char cur_char = *p_gcode;\n		if (cur_char == '\\0' || cur_char == ';')\n			break;","		const char cur_char = *p_gcode;\n		const bool at_end = cur_char == '\\0' || cur_char == ';';\n		if (at_end)\n			break;"),
('P22',G,"			if (!preserve_format && !is_text_only_parameter && (cur_char >= 'a' && cur_char <= 'z'))\n				command.gcode.push_back(cur_char - 32);\n			else\n				command.gcode.push_back(cur_char);\n			has_seen","			const bool lower = cur_char >= 'a' && cur_char <= 'z';\n			const bool keep = preserve_format || is_text_only_parameter || !lower;\n			command.gcode += keep ? cur_char : (char)(cur_char - 32);\n			has_seen"),
('P22',G,"	while (*p != '\\0' && !found_comment)\n	{\n		if (*p == ';')\n		{\n			found_comment = true;\n		}\n		p++;\n	}","	while (*p != '\\0')\n	{\n		if (*p++ == ';')\n		{\n			found_comment = true;\n			break;\n		}\n	}"),
('P22',G,"		if (*p != '\\r' && *p != '\\n')\n		{\n			// Dont't add line breaks\n			(*p_comment).push_back(*p++);\n		}\n		else\n			p++;","		const char c = *p++;\n		if (c == '\\r' || c == '\\n')\n			continue;\n		p_comment->push_back(c);"),
('P22',[(G,"bool gcode_parser::try_extract_comment(","static void append_char(std::string& text, char c)\n{\n	text.push_back(c);\n}\n\nbool gcode_parser::try_extract_comment("),(G,"			(*p_comment).push_back(*p++);\n		}\n		else\n			p++;","			append_char(*p_comment, *p);\n		}\n		p++;")]),
('P22',W,"parser_.try_parse_gcode(line.c_str(), cmd, true)","parser_.try_parse_gcode(line.c_str(), cmd)"),
('P22',C,"	command.clear();\n	gcode.clear();","	gcode.clear();\n	command = \"\";"),
]

P='GcodeProcessorLib/gcode_position.cpp'
BREAK+=[
('P23',G,'	parsable_command_names.push_back("M218");\n',''),
('P23',G,'	parsable_command_names.push_back("G92");\n',''),
('P23',G,'	parsable_command_names.push_back("M83");\n','	text_only_function_names.push_back("M83");\n'),
('P23',P,'std::make_pair("M82", &gcode_position::process_m82)','std::make_pair("M82", &gcode_position::process_m83)'),
('P23',P,'std::make_pair("G90", &gcode_position::process_g90)','std::make_pair("G90", &gcode_position::process_g91)'),
('P23',G,"			r = (r*10.0) + (*p - '0');\n		}\n		++p;\n	}\n	if (*p == '.')","			r = (r*10.0) + (*p - '1');\n		}\n		++p;\n	}\n	if (*p == '.')"),
('P23',G,"				f = (f*10.0) + (*p - '0');","				f = (f*8.0) + (*p - '0');"),
('P23',G,"				f = (f*10.0) + (*p - '0');\n				++n;","				f = (f*10.0) + (*p - '0');\n				n += 2;"),
('P23',G,"				++n;\n			}\n			++p;","			}\n			++n;\n			++p;"),
('P23',G,"		r += f / ten_pow(n);","		if (r != 0) r += f / ten_pow(n);"),
('P23',G,"		r += f / ten_pow(n);","		r = f / ten_pow(n);"),
('P23',G,"	double r = 1.0;\n\n	while (n > 0)","	double r = 1.0;\n\n	while (n > 1)"),
('P23',G,"	if (neg) {\n		r = -r;\n	}","	if (neg && r > 1) {\n		r = -r;\n	}"),
('P23',G,"	if (neg) {\n		r = -r;\n	}\n",""),
('P23',G,"		parameter->value_type = 'F';","		parameter->value_type = 'U';"),
('P23',G,"		parameter->value_type = 'U';\n	}\n	return true;","		parameter->value_type = 'F';\n	}\n	return true;"),
('P23',G,"		parameter->name = *p++ - 32;","		parameter->name = *p++;"),
('P23',G,"	if (*p >= 'a' && *p <= 'z')\n		gcode_word = *p - 32;\n	else\n		gcode_word = *p;\n	if (gcode_word == 'G' ||","	gcode_word = *p;\n	if (gcode_word == 'G' || gcode_word == 'g' ||"),
('P23',G,"				while (true)\n				{\n					//std::cout << \"GcodeParser.try_parse_gcode - Trying to extract parameters.\\r\\n\";\n					parsed_command_parameter param;\n					if (try_extract_parameter(&p, &param))\n						command.parameters.push_back(param);\n					else\n					{\n						//std::cout << \"GcodeParser.try_parse_gcode - No parameters found.\\r\\n\";\n						break;\n					}\n				}\n			}\n		}","				parsed_command_parameter param;\n				while (try_extract_parameter(&p, &param))\n				{\n					command.parameters.push_back(param);\n				}\n			}\n		}"),
('P23',G,"					if (try_extract_parameter(&p, &param))\n						command.parameters.push_back(param);\n					else\n					{\n						//std::cout << \"GcodeParser.try_parse_gcode - No parameters found.\\r\\n\";\n						break;\n					}\n				}\n			}\n		}","					if (!try_extract_parameter(&p, &param))\n						break;\n					if (param.value_type == 'F' && command.parameters.size() < 6)\n						command.parameters.push_back(param);\n				}\n			}\n		}"),
('P23',G,"		double f = 0.0;\n		unsigned short n = 0;","		unsigned int f = 0;\n		unsigned short n = 0;"),
('P23',G,"	double r = 0;\n","	unsigned long r = 0;\n"),
('P23',G,"		double f = 0.0;\n		unsigned short n = 0;","		float f = 0.0f;\n		unsigned short n = 0;"),
('P23',G,"	double r = 1.0;\n","	int r = 1;\n"),
]
KEEP+=[
('P23',G,'	parsable_command_names.push_back("M82");\n	parsable_command_names.push_back("M83");\n','	parsable_command_names.push_back("M83");\n	parsable_command_names.push_back("M82");\n'),
('P23',G,'	parsable_command_names.push_back("T");\n','	parsable_commands_.insert("T");\n'),
('P23',G,"			r = (r*10.0) + (*p - '0');\n		}\n		++p;\n	}\n	if (*p == '.')","			const int digit = *p - '0';\n			r = digit + 10.0 * r;\n		}\n		++p;\n	}\n	if (*p == '.')"),
('P23',G,"	if (neg) {\n		r = -r;\n	}","	r = neg ? -r : r;"),
('P23',G,"	if (neg) {\n		r = -r;\n	}\n	if (found_numbers)\n	{\n		*p_double = r;","	if (found_numbers)\n	{\n		*p_double = neg ? -1.0 * r : r;"),
('P23',G,"	while (n > 0) {\n		r *= 10;\n		--n;\n	}","	for (unsigned short i = 0; i < n; i++)\n	{\n		r *= 10;\n	}"),
('P23',G,"		unsigned short n = 0;\n		++p;","		unsigned short n = 0;\n		double scale = 1.0;\n		++p;") if False else
('P23',[(G,"				++n;\n			}\n			++p;","				scale *= 10.0;\n				++n;\n			}\n			++p;"),(G,"		unsigned short n = 0;\n		++p;","		unsigned short n = 0;\n		double scale = 1.0;\n		++p;"),(G,"f / ten_pow(n)","f / scale")]),
('P23',G,"	if (*p >= 'a' && *p <= 'z')\n		parameter->name = *p++ - 32;\n	else if (*p >= 'A' && *p <= 'Z')\n		parameter->name = *p++;\n	else\n		return false;","	const char letter = *p;\n	const bool lower = letter >= 'a' && letter <= 'z';\n	const bool upper = letter >= 'A' && letter <= 'Z';\n	if (!lower && !upper)\n		return false;\n	parameter->name = lower ? letter - 32 : letter;\n	p++;"),
('P23',G,"				if (try_extract_t_parameter(&p, &param))\n				{\n					command.parameters.push_back(param);\n				}","				const bool found_tool = try_extract_t_parameter(&p, &param);\n				if (found_tool)\n					command.parameters.push_back(param);"),
]
