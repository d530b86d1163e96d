// The parts of libstdc++ that are compiled into the shared library, instantiated here so that they are executed
// rather than assumed.
#include <string>
template class std::__cxx11::basic_string<char>;
