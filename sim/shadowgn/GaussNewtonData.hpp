#pragma once
#include <string_view>
// the loader's files live in the simulated file system
namespace GaussNewtonData {
    constexpr const std::string_view g_input_data = "/sim/in.txt";
    constexpr const std::string_view g_output_data = "/sim/out.txt";
}
