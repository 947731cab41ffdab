AL='GcodeProcessorLib/array_list.h'; CB='GcodeProcessorLib/circular_buffer.h'; PO='GcodeProcessorLib/position.cpp'; GP='GcodeProcessorLib/gcode_position.cpp'; SS='ArcWelder/segmented_shape.cpp'
BREAK=[
('P30',AL,'			front_index_ = max_size_ - 1;','			front_index_ = max_size_;'),
('P30',AL,'(front_index_ + index + max_size_) % max_size_','(front_index_ + index + max_size_) % max_size'),
('P30',AL,'items_[(front_index_ + index + max_size_) % max_size_]','items_[index]'),
('P30',AL,'		front_index_ = 0;\n		delete[] items_;\n		items_ = new_items;','		delete[] items_;\n		items_ = new_items;'),
('P30',AL,'		T* new_items = new T[max_size];\n		for (int index = 0; index < count_; index++)','		T* new_items = new T[max_size];\n		for (int index = 0; index <= count_; index++)'),
('P30',AL,'		if (front_index_ >= max_size_)','		if (front_index_ > max_size_)'),
('P30',CB,'		while (index_position >= max_size_)','		while (index_position > max_size_)'),
('P30',AL,'		int pos = get_index_position(count_);','		int pos = get_index_position(count_ + 1);'),
('P30',CB,'			front_index_ = get_index_position(1);','			front_index_ = get_index_position(0);'),
('P30',CB,'			// the buffer is full, the first item was replaced\n			front_index_ = get_index_position(1);',''),
('P30',AL,'		int pos = get_index_position(count_ - 1);\n','		int pos = get_index_position(count_);\n'),
('P30',AL,'		return items_[prev_start];','		return items_[front_index_];'),
('P30',AL,'				resize(max_size_ * 2);','				resize(max_size_);'),
('P30',CB,'		items_ = new_items;\n		max_size_ = max_size;\n	}\n\n	inline','		items_ = new_items;\n	}\n\n	inline'),
('P30',CB,'		if (count_ == 0)','		if (count_ < 0)'),
('P30',CB,'		items_ = new T[max_size_];','		items_ = new T[max_size_ - 1];'),
('P27',AL,'			items_[index] = source[index];','			items_[index] = source.items_[index];'),
('P27',CB,'		count_ = source.count_;\n','		count_ = source.max_size_;\n'),
('P27',CB,'		if (max_size_ < source.max_size_)\n','		if (max_size_ < source.count_ - 1)\n'),
('P27',PO,'	z_homed = pos.z_homed;','	z_homed = pos.y_homed;'),
('P27',PO,'	z_homed = pos.z_homed;',''),
('P27',GP,'	height_increment = pos_args.height_increment;\n','	height_increment = pos_args.minimum_layer_height;\n'),
('P27',GP,'			y_firmware_offsets[index] = pos_args.y_firmware_offsets[index];','			y_firmware_offsets[index] = pos_args.x_firmware_offsets[index];'),
('P27',SS,'  max_segments_ = obj.max_segments_;\n  resolution_mm_ = obj.resolution_mm_;','  max_segments_ = obj.max_segments_;'),
('P27',SS,'  points_.copy(obj.points_);\n',''),
('P27',PO,'		p_extruders[index] = pos.p_extruders[index];\n	}\n}','		p_extruders[0] = pos.p_extruders[index];\n	}\n}'),
('P27',PO,'	for(int index=0; index < pos.num_extruders; index++)\n	{\n		p_extruders[index] = pos.p_extruders[index];\n	}\n}','	for(int index=1; index < pos.num_extruders; index++)\n	{\n		p_extruders[index] = pos.p_extruders[index];\n	}\n}'),
('P27',PO,'	set_num_extruders(pos.num_extruders);\n	for(int index=0; index < pos.num_extruders; index++)\n	{\n		p_extruders[index] = pos.p_extruders[index];\n	}\n}','	num_extruders = pos.num_extruders;\n	p_extruders = pos.p_extruders;\n}'),
]
KEEP=[
('P30 P27',AL,'			new_items[index] = items_[(front_index_ + index + max_size_) % max_size_];','			new_items[index] = items_[get_index_position(index)];'),
('P30 P27',AL,'		front_index_ -= 1;\n		if (front_index_ < 0)\n		{\n			front_index_ = max_size_ - 1;\n		}\n','		front_index_ = (front_index_ - 1 + max_size_) % max_size_;\n'),
('P30 P27',CB,'		int index_position = index + front_index_ + max_size_;\n		while (index_position >= max_size_)\n		{\n			index_position = index_position - max_size_;\n		}\n		return index_position;','		return (index + front_index_) % max_size_;'),
('P30 P27',CB,'		front_index_ += 1;\n		if (front_index_ >= max_size_)\n		{\n			front_index_ = 0;\n		}\n		count_--;\n		return items_[prev_start];','		count_--;\n		front_index_ = prev_start + 1 == max_size_ ? 0 : prev_start + 1;\n		return items_[prev_start];'),
('P30 P27',AL,'		for (int index = 0; index < source.count_; index++)\n		{\n			items_[index] = source[index];\n		}\n		count_ = source.count_;','		int index = 0;\n		while (index < source.count())\n		{\n			items_[index] = source.get(index);\n			++index;\n		}\n		count_ = source.count();'),
('P30 P27',AL,'		int pos = get_index_position(count_);\n		items_[pos] = object;\n		count_++;','		items_[(front_index_ + count_) % max_size_] = object;\n		count_ = count_ + 1;'),
('P27',PO,'	x_homed = pos.x_homed;\n	y = pos.y;','	y = pos.y;\n	x_homed = pos.x_homed;'),
('P27',PO,'	for(int index=0; index < pos.num_extruders; index++)\n	{\n		p_extruders[index] = pos.p_extruders[index];\n	}\n}','	int i = 0;\n	while (i < num_extruders)\n	{\n		p_extruders[i] = pos.p_extruders[i];\n		i++;\n	}\n}'),
('P30 P27',CB,'	T& pop_back()\n	{\n		if (count_ == 0)\n		{\n			throw std::exception();\n		}\n','	T& pop_back()\n	{\n		if (!(count_ > 0)) throw std::exception();\n'),
]
