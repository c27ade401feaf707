#ifndef SIM_OVERLOAD_H_
#define SIM_OVERLOAD_H_
namespace absl {
template <typename... T> struct Overload final : T... {
  explicit Overload(T... ts) : T(static_cast<T&&>(ts))... {}
  using T::operator()...;
};
template <typename... T> Overload(T...) -> Overload<T...>;
}
#endif
