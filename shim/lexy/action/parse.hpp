#pragma once
#include <lexy/shim.hpp>
