UT='GcodeProcessorLib/utilities.cpp'; AW='ArcWelder/arc_welder.cpp'
BREAK=[
('P34',UT,'	const std::string directory = temp_file_path;\n	do\n	{\n		temp_file_path = directory;\n		temp_file_path += create_uuid();','	const std::string directory = temp_file_path;\n	do\n	{\n		temp_file_path = create_uuid();'),
('P34',UT,'	} while (does_file_exist(temp_file_path));','	} while (false);'),
('P34',UT,'	} while (does_file_exist(temp_file_path));','	} while (does_file_exist(directory + create_uuid()));'),
('P34',UT,'	} while (does_file_exist(temp_file_path));','	} while (!does_file_exist(temp_file_path));'),
('P34',UT,'	std::random_device device;\n',''.join([])+'	struct { int operator()() { return rand(); } } device;\n'),
('P34',UT,'for (int i = 0; i < 16; i++) {\n		if (GUID_DASHES','for (int i = 0; i < 4; i++) {\n		if (GUID_DASHES'),
('P34',UT,'index < file_parts.size() - 1; index++)\n	{\n		path +=','index < file_parts.size(); index++)\n	{\n		path +='),
('P34',UT,'int index = 0; index < file_parts.size() - 1; index++)\n	{\n		path +=','int index = 1; index < file_parts.size() - 1; index++)\n	{\n		path +='),
('P34',UT,'		path += file_parts[index];\n		path += PATH_SEPARATOR_;','		path += file_parts[index];'),
('P34',UT,'	temp_file_path = "";\n	if (!get_file_path','	if (!get_file_path'),
('P34',UT,'	if (file = fopen(file_path.c_str(), "r")) {\n		fclose(file);\n		return true;','	if (file = fopen(file_path.c_str(), "r")) {\n		fclose(file);\n		return false;'),
('P34',UT,'	if (file = fopen(file_path.c_str(), "r")) {\n		fclose(file);\n		return true;','	if (file = fopen(file_path.c_str(), "w")) {\n		fclose(file);\n		return true;'),
('P34',UT,'		temp_file_path += create_uuid();','		temp_file_path += file_path.substr(directory.length());'),
('P34',UT,'			start = pch + 1;','			start = pch;'),
('P34',UT,'		temp_file_path += create_uuid();','		temp_file_path += "tmp/"; temp_file_path += create_uuid();'),
('P34',AW,'utilities::get_temp_file_path_for_file(source_path_, temp_file_path)','utilities::get_temp_file_path_for_file(temp_file_path, temp_file_path)'),
]
KEEP=[
('P34',UT,'	do\n	{\n		temp_file_path = directory;\n		temp_file_path += create_uuid();\n		temp_file_path += ".tmp";\n	} while (does_file_exist(temp_file_path));','	while (true)\n	{\n		const std::string name = directory + create_uuid() + ".tmp";\n		if (!does_file_exist(name)) { temp_file_path = name; break; }\n	}'),
('P34',UT,'	for (int i = 0; i < 16; i++) {\n		if (GUID_DASHES[i]) res += "-";\n		res += GUID_RANGE[(int)(device() % 16)];\n		res += GUID_RANGE[(int)(device() % 16)];\n	}','	int i = 0;\n	while (i < 16) {\n		if (GUID_DASHES[i]) res += "-";\n		const int a = (int)(device() % 16), b = (int)(device() % 16);\n		res += GUID_RANGE[a];\n		res += GUID_RANGE[b];\n		++i;\n	}'),
('P34',UT,'	FILE* file;\n	if (file = fopen(file_path.c_str(), "r")) {\n		fclose(file);\n		return true;\n	}\n	return false;','	FILE* file = fopen(file_path.c_str(), "r");\n	if (file == NULL) return false;\n	fclose(file);\n	return true;'),
('P34',UT,'	for (int index = 0; index < file_parts.size() - 1; index++)\n	{\n		path += file_parts[index];\n		path += PATH_SEPARATOR_;\n	}','	const int last = (int)file_parts.size() - 1;\n	int index = 0;\n	while (index < last)\n	{\n		path += file_parts[index++] + PATH_SEPARATOR_;\n	}'),
('P34',UT,'		if (*pch == PATH_SEPARATOR_)\n		{\n			if (start != pch)\n			{\n				std::string str(start, pch);\n				result.push_back(str);\n			}\n			else\n			{\n				result.push_back("");\n			}\n			start','		if (*pch == PATH_SEPARATOR_)\n		{\n			result.push_back(std::string(start, pch));\n			start'),
('P34',AW,'utilities::get_temp_file_path_for_file(source_path_, temp_file_path)','utilities::get_temp_file_path_for_file(target_path_, temp_file_path)'),
('P34',UT,'	const std::string directory = temp_file_path;\n	do','	const std::string directory(temp_file_path);\n	do'),
]
