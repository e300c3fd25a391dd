// Stand-in for cura-formulae-engine (absent here): the value type.
#ifndef SIM_STUB_CFE_EVAL_H
#define SIM_STUB_CFE_EVAL_H
#include <spdlog/spdlog.h>
#include <cmath>
#include <cstdint>
#include <fmt/format.h>
#include <string>
#include <unordered_map>
#include <memory>
#include <optional>
#include <variant>
#include <vector>
#include <zeus/expected.hpp>
namespace CuraFormulaeEngine::eval
{
struct Value
{
    std::variant<std::monostate, bool, std::int64_t, double, std::string, std::vector<Value>> value;
    Value() = default;
    Value(bool b) : value(b) {}
    Value(int i) : value(std::int64_t(i)) {}
    Value(std::int64_t i) : value(i) {}
    Value(double d) : value(d) {}
    Value(const char* s) : value(std::string(s)) {}
    Value(std::string s) : value(std::move(s)) {}
    Value(std::vector<Value> v) : value(std::move(v)) {}
    std::string toString() const
    {
        if (std::holds_alternative<bool>(value)) return std::get<bool>(value) ? "True" : "False";
        if (std::holds_alternative<std::int64_t>(value)) return fmt::format("{}", std::get<std::int64_t>(value));
        if (std::holds_alternative<double>(value)) return fmt::format("{}", std::get<double>(value));
        if (std::holds_alternative<std::string>(value)) return std::get<std::string>(value);
        if (std::holds_alternative<std::vector<Value>>(value))
        {
            std::string s = "[";
            for (const Value& v : std::get<std::vector<Value>>(value))
            {
                if (s.size() > 1) s += ", ";
                s += v.toString();
            }
            return s + "]";
        }
        return "None";
    }
};
enum class error_t { Failed };
using Result = zeus::expected<Value, error_t>;
} // namespace CuraFormulaeEngine::eval
#endif
