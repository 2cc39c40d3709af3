#pragma once
#include <cstdint>
#include <iostream>
#include <string>
namespace mockturtle
{
class progress_bar
{
  public:
    progress_bar(const std::string&, bool = true, std::ostream& = std::cout) {}
    progress_bar(uint32_t, const std::string&, bool = true, std::ostream& = std::cout) {}
    template <typename... Args>
    void operator()(Args...) {}
    void done() {}
};
}  // namespace mockturtle
