// Out-of-line standard library templates (compiled with _GLIBCXX_EXTERN_TEMPLATE=0).
#include <string>
#ifdef STREAMS
#include <sstream>
#include <iostream>
template class std::basic_ios<char>;
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
template std::ostream& std::operator<<(std::ostream&, char);
template std::ostream& std::operator<<(std::ostream&, unsigned char);
template std::ostream& std::operator<<(std::ostream&, signed char);
template std::ostream& std::operator<<(std::ostream&, const std::string&);
#else
template class std::basic_string<char>;
template std::string std::operator+(const char*, const std::string&);
template std::string std::operator+(const std::string&, const std::string&);
template std::string std::operator+(const std::string&, const char*);
template std::string std::operator+(const std::string&, char);
template std::string std::operator+(char, const std::string&);
#endif
