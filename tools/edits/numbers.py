FP='GcodeProcessorLib/fpconv.cpp'; FH='GcodeProcessorLib/fpconv.h'; UT='GcodeProcessorLib/utilities.cpp'
BREAK=[
('P32',FH,'#define FPCONV_MAX_LENGTH 600','#define FPCONV_MAX_LENGTH 400'),
('P32',UT,'	char buffer[FPCONV_BUFFER_LENGTH];\n	buffer','	char buffer[FPCONV_BUFFER_LENGTH - 40];\n	buffer'),
('P32',FP,'''  char digits[18];

  int str_len = 0;
  bool neg = false;

  if (get_dbits(d) & signmask) {
    dest[0] = '-';
    str_len++;
    neg = true;
  }

  int spec = filter_special(d, dest + str_len);

  if (spec) {
    return str_len + spec;
  }

  int K = 0;
  int ndigits = grisu2(d, digits, &K);

  str_len += emit_digits_decimal''','''  char digits[16];

  int str_len = 0;
  bool neg = false;

  if (get_dbits(d) & signmask) {
    dest[0] = '-';
    str_len++;
    neg = true;
  }

  int spec = filter_special(d, dest + str_len);

  if (spec) {
    return str_len + spec;
  }

  int K = 0;
  int ndigits = grisu2(d, digits, &K);

  str_len += emit_digits_decimal'''),
('P32',FP,'''      dest[length++] = '.';
      memset(dest + length, '0', precision);''','''      dest[length++] = '.';
      memset(dest + length, '0', precision + K);'''),
('P32',FP,'''    offset = -offset;
    dest[0] = '0';
    dest[1] = '.';
    memset(dest + 2, '0', offset);
    memcpy(dest + offset + 2, digits, ndigits);
    length =''','''    dest[0] = '0';
    dest[1] = '.';
    memset(dest + 2, '0', -offset);
    memcpy(dest + offset + 2, digits, ndigits);
    length ='''),
('P32',FP,'      while (--index > -1)\n','      while (--index >= -1)\n'),
('P32',FP,'for (int ri = length - 1; ri > -1; --ri) {\n          dest[ri+1]','for (int ri = length - 1; ri > -1; --ri) {\n          dest[ri-1]'),
('P32',FP,'    terminator_location = offset + precision + 1;','    terminator_location = offset - precision + 1;'),
('P32',FP,'    memcpy(dest + offset + 1, digits + offset, ndigits - offset);\n    length','    memcpy(dest + offset + 1, digits + offset, ndigits);\n    length'),
('P32',FP,'      terminator_location--;\n      if (terminator_location < 0)\n','      terminator_location -= 3;\n      if (terminator_location < -5)\n'),
]
KEEP=[
('P32',FP,'for (int zero_index = terminator_location; zero_index >= length; zero_index--)','for (int zero_index = length; zero_index <= terminator_location; zero_index++)'),
('P32',FP,'''      memset(dest + length, '0', precision);
      length += precision;''','''      for (int q = 0; q < precision; q++) dest[length++] = '0';'''),
('P32',FP,'''      while (--index > -1)
      {
        p--;''','''      while (index > 0)
      {
        index--;
        p--;'''),
('P32',FP,'''        for (int ri = length - 1; ri > -1; --ri) {
          dest[ri+1] = dest[ri];
        }''','''        for (int ri = length; ri > 0; --ri) {
          dest[ri] = dest[ri - 1];
        }'''),
('P32',FP,'''        for (int ri = length - 1; ri > -1; --ri) {
          dest[ri+1] = dest[ri];
        }''','''        memmove(dest + 1, dest, length);'''),
('P32',UT,'	buffer[fpconv_dtos(x, buffer, precision)] = \'\\0\';','	int n_ = fpconv_dtos(x, buffer, precision);\n	buffer[n_] = \'\\0\';'),
('P32',FP,'    memcpy(dest, digits, ndigits);\n    memset(dest + ndigits, \'0\', K);\n    // pad','    char* q_ = dest;\n    for (int i = 0; i < ndigits; ++i) *q_++ = digits[i];\n    memset(q_, \'0\', K);\n    // pad'),
('P32',FP,'''  if (terminator_location < FPCONV_MAX_LENGTH)
  {''','''  if (!(terminator_location >= FPCONV_MAX_LENGTH))
  {'''),
]
