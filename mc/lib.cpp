// The library compiled on its own (ASIOEXT_SEPARATE_COMPILATION), as src/asioext.cpp does.
#include "asioext/impl/src.cpp"
