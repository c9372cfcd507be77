#pragma once
#include <haxorg/sem/SemOrg.hpp>
