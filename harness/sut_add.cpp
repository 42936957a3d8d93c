#include "adapt.hpp"
namespace {
template <typename P, typename Q, typename = void> struct CanAdd : std::false_type {};
template <typename P, typename Q> struct CanAdd<P, Q, std::void_t<decltype(std::declval<P const &>() + std::declval<Q const &>())>> : std::true_type {};
template <typename P, typename Q, typename = void> struct CanSub : std::false_type {};
template <typename P, typename Q> struct CanSub<P, Q, std::void_t<decltype(std::declval<P const &>() - std::declval<Q const &>())>> : std::true_type {};

template <int a, int b> void add(Val const * x, Val const * y, Val * o)
{ call2<a, b>(x, y, o, [](auto && p, auto && q) -> decltype(auto) { return FW(p) + FW(q); }); }
template <int a, int b> void sub(Val const * x, Val const * y, Val * o)
{ call2<a, b>(x, y, o, [](auto && p, auto && q) -> decltype(auto) { return FW(p) - FW(q); }); }

template <int a, int b> void cell()
{
	if constexpr (a != D && b != D)
	{
		if constexpr (CanAdd<Ty<a>, Ty<b>>::value) sut.add[a][b] = add<a, b>;
		if constexpr (CanSub<Ty<a>, Ty<b>>::value) sut.sub[a][b] = sub<a, b>;
	}
}
template <int a> void row()
{
	cell<a, S>(); cell<a, V>(); cell<a, B>(); cell<a, T>(); cell<a, SP>();
	cell<a, IS>(); cell<a, CX>(); cell<a, DX>(); cell<a, MV>();
}
}
void sutFillAdd()
{
	row<S>(); row<V>(); row<B>(); row<T>(); row<SP>(); row<IS>(); row<CX>(); row<DX>(); row<MV>();
}
