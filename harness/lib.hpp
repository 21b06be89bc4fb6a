// The code under test: libIGES core headers and small helpers around them.
#pragma once
#include "mc.hpp"
#include <core/iges.h>
#include <core/all_entities.h>
#include <core/iges_io.h>
#include <locale.h>
