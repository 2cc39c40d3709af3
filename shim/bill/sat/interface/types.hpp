#pragma once
#include <cstdint>
#include <variant>
#include <vector>
namespace bill
{
using var_type = uint32_t;
enum polarities : uint32_t { positive_polarity = 0, negative_polarity = 1 };
class lit_type
{
  public:
    lit_type() = default;
    lit_type(var_type v, polarities p = positive_polarity) : data((v << 1) | static_cast<uint32_t>(p)) {}
    var_type variable() const { return data >> 1; }
    bool     is_complemented() const { return data & 1; }
    void     complement() { data ^= 1; }
    lit_type operator~() const { auto l = *this; l.data ^= 1; return l; }
    bool     operator==(const lit_type& o) const { return data == o.data; }
    bool     operator<(const lit_type& o) const { return data < o.data; }

  private:
    uint32_t data{0xffffffff};
};
enum class lbool_type : uint8_t { false_ = 0, true_, undefined };
class result
{
  public:
    using model_type       = std::vector<lbool_type>;
    using clause_type      = std::vector<lit_type>;
    enum class states : uint8_t { undefined, satisfiable, unsatisfiable, dirty, timeout };
    result(states s = states::undefined) : st(s) {}
    explicit result(model_type m) : st(states::satisfiable), mdl(std::move(m)) {}
    const model_type& model() const { return mdl; }
    bool is_satisfiable() const { return st == states::satisfiable; }
    bool is_unsatisfiable() const { return st == states::unsatisfiable; }
    operator bool() const { return is_satisfiable(); }

  private:
    states     st;
    model_type mdl;
};
}  // namespace bill
