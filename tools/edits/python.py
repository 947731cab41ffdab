W='PyArcWelder/py_arc_welder.cpp'; X='PyArcWelder/py_arc_welder_extension.cpp'; G='PyArcWelder/py_logger.cpp'; H='PyArcWelder/python_helpers.cpp'
BREAK=[
('P35',W,'  if (pyMessage == NULL)\n  {\n    Py_DECREF(pyGuid);\n    return NULL;','  if (pyMessage == NULL)\n  {\n    return NULL;'),
('P35',W,'    Py_DECREF(pyTravelMessage);\n    return NULL;','    return NULL;'),
('P35',W,'  Py_DECREF(pyTravelMessage);\n  return py_progress;','  return py_progress;'),
('P35',W,'  PyGILState_Release(gstate);\n  Py_DECREF(func_args);','  Py_DECREF(func_args);'),
('P35',W,'  Py_DECREF(func_args);\n  Py_DECREF(py_dict);','  Py_DECREF(py_dict);\n  Py_DECREF(py_dict);'),
('P35',W,'"percent_complete",\n    progress.percent_complete,','"percent_complete",\n    progress.seconds_elapsed,'),
('P35',W,'{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:l','{s:d,s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:l'),
('P35',W,'PyDict_GetItemString(py_args, "resolution_mm");','PyDict_GetItemString(py_args, "max_radius_mm");'),
('P35',W,'    // The callback raised an exception.  Report it so that it isn\'t left set, then continue.\n    PyErr_Print();\n',''),
('P35',W,'    Py_DECREF(pContinueProcessing);\n  }\n','  }\n'),
('P35',X,'		Py_XDECREF(py_progress_callback);\n','' ),
('P35',X,'		if (p_progress == NULL)\n			return NULL;\n',''),
('P35',X,'		Py_DECREF(p_progress);\n		return p_results;','		return p_results;'),
('P35',X,'			"{s:i,s:i,s:s,s:O}"','			"{s:i,s:i,s:s,s:N}"'),
('P35',X,'			"{s:i,s:i,s:s,s:O}"','			"{s:i,s:i,s:O,s:s}"'),
('P35',X,'		if (!py_gcode_arc_args::parse_args(py_convert_file_args, p_py_logger, args, &py_progress_callback))\n		{\n			return NULL;','		if (!py_gcode_arc_args::parse_args(py_convert_file_args, p_py_logger, args, &py_progress_callback))\n		{\n			Py_DECREF(py_convert_file_args);\n			return NULL;'),
('P35',G,'	Py_DECREF(pyMessage);\n	PyGILState_Release(state);','	Py_DECREF(pyMessage);'),
('P35',G,'	Py_XDECREF(ret_val);\n}','}'),
('P35',G,'	Py_XDECREF(ret_val);\n}','	Py_DECREF(ret_val);\n}'),
('P35',G,'		PyGILState_Release(gstate);\n		return;','		return;'),
('P35',G,'				PyErr_Restore(error_type, error_value, error_traceback);','				PyErr_SetString(PyExc_Exception, message.c_str());') if 0 else ('P35',G,'		if (error_occurred)\n			PyErr_Restore(error_type, error_value, error_traceback);\n		else\n			PyErr','		PyErr'),
('P35',H,'			if (value == -1 && PyErr_Occurred())','			if (value == -2 && PyErr_Occurred())'),
('P35',W,'  if (py_resolution_mm == NULL)\n  {\n    std::string message = "ParseArgs - Unable to retrieve the \'resolution_mm\' parameter from the args.";\n    p_py_logger->log(GCODE_CONVERSION, WARNING, message);\n  }\n  else {','  {'),
]
KEEP=[
('P35',W,'  Py_DECREF(func_args);\n  Py_DECREF(py_dict);','  Py_DECREF(py_dict);\n  Py_DECREF(func_args);'),
('P35',W,'  if (pyMessage == NULL)\n  {\n    Py_DECREF(pyGuid);\n    return NULL;','  if (!pyMessage)\n  {\n    Py_XDECREF(pyGuid);\n    return NULL;'),
('P35',W,'  Py_DECREF(pyTravelMessage);\n  return py_progress;','  Py_CLEAR(pyTravelMessage);\n  return py_progress;'),
('P35',X,'		Py_XDECREF(py_progress_callback);\n','		if (py_progress_callback != NULL)\n			Py_DECREF(py_progress_callback);\n'),
('P35',X,'		if (p_progress == NULL)\n			return NULL;\n','		if (!p_progress)\n		{\n			return NULL;\n		}\n'),
('P35',X,'		Py_DECREF(p_progress);\n		return p_results;','		Py_CLEAR(p_progress);\n		return p_results;'),
('P35',X,'			"{s:i,s:i,s:s,s:O}"','			"{s:i,s:i,s:s,s:N}"') if 0 else ('P35',X,'		if (p_progress == NULL)\n			return NULL;\n','		if (p_progress == 0) return 0;\n'),
('P35',W,'  if (pContinueProcessing == NULL)\n','  const bool failed = pContinueProcessing == NULL;\n  if (failed)\n'),
('P35',G,'	Py_XDECREF(ret_val);\n}','	if (ret_val != NULL)\n	{\n		Py_DECREF(ret_val);\n	}\n}'),
('P35',G,'	if (is_exception)\n	{\n		if (error_occurred)\n			PyErr_Restore(error_type, error_value, error_traceback);\n		else\n			PyErr_SetString(PyExc_Exception, message.c_str());\n	}','	if (!is_exception)\n	{\n		Py_XDECREF(ret_val);\n		return;\n	}\n	if (!error_occurred)\n		PyErr_SetString(PyExc_Exception, message.c_str());\n	else\n		PyErr_Restore(error_type, error_value, error_traceback);'),
]
