// the configuration of compilers that cannot tell constant evaluation from execution
#include <boost/hash2/detail/config.hpp>
#undef BOOST_HASH2_HAS_BUILTIN_IS_CONSTANT_EVALUATED
