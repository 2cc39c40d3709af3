#pragma once
#include "types.hpp"
namespace bill
{
enum class solvers { glucose_41, ghack, maple, bsat2, bmcg, z3 };
}
