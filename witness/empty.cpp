#include "prelude.hpp"
