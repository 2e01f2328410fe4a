#include "jlcxx/jlcxx.hpp"
