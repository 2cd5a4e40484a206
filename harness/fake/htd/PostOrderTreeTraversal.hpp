#include "main.hpp"
