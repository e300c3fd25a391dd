// Stand-in for zeus::expected: the part of it the engine uses.
#ifndef SIM_STUB_ZEUS_EXPECTED_HPP
#define SIM_STUB_ZEUS_EXPECTED_HPP
#include <utility>
#include <variant>
namespace zeus
{
template<typename E>
struct unexpected
{
    E error;
    explicit unexpected(E e) : error(std::move(e)) {}
};
template<typename T, typename E>
class expected
{
    std::variant<T, unexpected<E>> v_;
public:
    expected(T t) : v_(std::in_place_index<0>, std::move(t)) {}
    expected(unexpected<E> e) : v_(std::in_place_index<1>, std::move(e)) {}
    bool has_value() const { return v_.index() == 0; }
    explicit operator bool() const { return has_value(); }
    const T& value() const { return std::get<0>(v_); }
    T& value() { return std::get<0>(v_); }
    const E& error() const { return std::get<1>(v_).error; }
};
} // namespace zeus
#endif
