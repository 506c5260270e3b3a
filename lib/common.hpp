#pragma once
#include "pbt.hpp"
