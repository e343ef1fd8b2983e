// Answers of the library for one type or a pair of types, next to the standard ones.
#ifndef GEN_TRAITS_H_
#define GEN_TRAITS_H_

#include <cstddef>
#include <cstdio>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#ifndef STD_ONLY
#include <Caitlyn/Traits>
#endif

// Type constructors
template <class T> using P = T*;
template <class T> using C = const T;
template <class T> using V = volatile T;
template <class T> using CV = const volatile T;
template <class T> using L = T&;
template <class T> using R = T&&;
template <class T> using U = T[];
template <class T, std::size_t N> using A = T[N];
template <class T, class K> using M = T K::*;
template <class T, class... X> using F = T(X...);
template <class T, class... X> using FE = T(X..., ...);
template <class T, class... X> using FC = T(X...) const;
template <class T, class... X> using FV = T(X...) volatile;
template <class T, class... X> using FL = T(X...) &;
template <class T, class... X> using FR = T(X...) const volatile &&;
template <class T, class... X> using FEC = T(X..., ...) const &;
#if __cplusplus >= 201703L
template <class T, class... X> using FN = T(X...) noexcept;
template <class T, class... X> using FNC = T(X...) const noexcept;
#endif

struct Row
{
    const char* query;
    unsigned long got, want;
};
template <std::size_t N>
static int rows(const char* id, const Row (&r)[N])
{
    int bad = 0;
    for (const Row& x : r)
    {
        if (x.got != x.want)
        {
            std::printf("WRONG %s %s got %lu expected %lu\n", id, x.query, x.got, x.want);
            ++bad;
        }
    }
    return bad;
}

template <class T, class... X>
struct OneOf : std::false_type
{
};
template <class T, class H, class... X>
struct OneOf<T, H, X...> : std::integral_constant<bool, std::is_same<T, H>::value || OneOf<T, X...>::value>
{
};
template <class T>
struct StdCharacter : OneOf<typename std::remove_cv<T>::type, char, signed char, unsigned char, wchar_t, char16_t, char32_t
#if __cplusplus >= 202002L
, char8_t
#endif
>
{
};
template <class T>
struct StdInteger : OneOf<typename std::remove_cv<T>::type, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long>
{
};

#ifndef STD_ONLY
// every answer is a constant expression
#define Q1(name, std_name) {#name, std::integral_constant<bool, Caitlyn::name<T>()>::value, std::std_name<T>::value}
#define Q2(name, std_name) {#name, std::integral_constant<bool, Caitlyn::name<T, S>()>::value, std::std_name<T, S>::value}
#define X1(name, ...) {#name, std::is_same<Caitlyn::name<T>, __VA_ARGS__>::value, true}
#else
#define Q1(name, std_name) {#name, std::std_name<T>::value, std::std_name<T>::value}
#define Q2(name, std_name) {#name, std::std_name<T, S>::value, std::std_name<T, S>::value}
#define X1(name, ...) {#name, std::is_same<__VA_ARGS__, __VA_ARGS__>::value, true}
#endif

template <class T>
static int one(const char* id)
{
    const Row r[] = {
#ifndef STD_ONLY
        {"IsBoolean", std::integral_constant<bool, Caitlyn::IsBoolean<T>()>::value, std::is_same<typename std::remove_cv<T>::type, bool>::value},
        {"IsNullPointer", std::integral_constant<bool, Caitlyn::IsNullPointer<T>()>::value, std::is_same<typename std::remove_cv<T>::type, std::nullptr_t>::value},
        {"IsCharacter", std::integral_constant<bool, Caitlyn::IsCharacter<T>()>::value, StdCharacter<T>::value},
        {"IsInteger", std::integral_constant<bool, Caitlyn::IsInteger<T>()>::value, StdInteger<T>::value},
        {"IsVoidType", Caitlyn::IsVoidType<T>::Value, std::is_void<T>::value},
        {"IsVoidType call", Caitlyn::IsVoidType<T>()(), std::is_void<T>::value},
        {"IsBooleanType", static_cast<bool>(Caitlyn::IsBooleanType<T>()), std::is_same<typename std::remove_cv<T>::type, bool>::value},
        {"IsNullPointerType", Caitlyn::IsNullPointerType<T>::Value, std::is_same<typename std::remove_cv<T>::type, std::nullptr_t>::value},
        {"Rank", std::integral_constant<std::size_t, Caitlyn::Rank<T>()>::value, std::rank<T>::value},
        {"Extent", std::integral_constant<std::size_t, Caitlyn::Extent<T>()>::value, std::extent<T>::value},
#endif
        Q1(IsVoid, is_void),
        Q1(IsIntegral, is_integral),
        Q1(IsFloating, is_floating_point),
        Q1(IsArray, is_array),
        Q1(IsEnum, is_enum),
        Q1(IsUnion, is_union),
        Q1(IsClass, is_class),
        Q1(IsFunction, is_function),
        Q1(IsPointer, is_pointer),
        Q1(IsLValueReference, is_lvalue_reference),
        Q1(IsRValueReference, is_rvalue_reference),
        Q1(IsMemberObjectPointer, is_member_object_pointer),
        Q1(IsMemberFunctionPointer, is_member_function_pointer),
        Q1(IsFundamental, is_fundamental),
        Q1(IsArithmetic, is_arithmetic),
        Q1(IsScalar, is_scalar),
        Q1(IsObject, is_object),
        Q1(IsCompound, is_compound),
        Q1(IsReference, is_reference),
        Q1(IsMemberPointer, is_member_pointer),
        Q1(IsConst, is_const),
        Q1(IsVolatile, is_volatile),
        Q1(IsTrivial, is_trivial),
        Q1(IsTriviallyCopyable, is_trivially_copyable),
        Q1(IsStandardLayout, is_standard_layout),
        Q1(IsEmpty, is_empty),
        Q1(IsPolymorphic, is_polymorphic),
        Q1(IsAbstract, is_abstract),
        Q1(IsSigned, is_signed),
        Q1(IsUnsigned, is_unsigned),
        Q1(Constructible, is_constructible),
        Q1(TriviallyConstructible, is_trivially_constructible),
        Q1(NothrowConstructible, is_nothrow_constructible),
        Q1(DefaultConstructible, is_default_constructible),
        Q1(TriviallyDefaultConstructible, is_trivially_default_constructible),
        Q1(NothrowDefaultConstructible, is_nothrow_default_constructible),
        Q1(CopyConstructible, is_copy_constructible),
        Q1(TriviallyCopyConstructible, is_trivially_copy_constructible),
        Q1(NothrowCopyConstructible, is_nothrow_copy_constructible),
        Q1(MoveConstructible, is_move_constructible),
        Q1(TriviallyMoveConstructible, is_trivially_move_constructible),
        Q1(NothrowMoveConstructible, is_nothrow_move_constructible),
        Q1(CopyAssignable, is_copy_assignable),
        Q1(TriviallyCopyAssignable, is_trivially_copy_assignable),
        Q1(NothrowCopyAssignable, is_nothrow_copy_assignable),
        Q1(MoveAssignable, is_move_assignable),
        Q1(TriviallyMoveAssignable, is_trivially_move_assignable),
        Q1(NothrowMoveAssignable, is_nothrow_move_assignable),
        Q1(Destructible, is_destructible),
        Q1(TriviallyDestructible, is_trivially_destructible),
        Q1(NothrowDestructible, is_nothrow_destructible),
        Q1(HasVirtualDestructor, has_virtual_destructor),
        X1(AddConstType, typename std::add_const<T>::type),
        X1(AddVolatileType, typename std::add_volatile<T>::type),
        X1(AddCVType, typename std::add_cv<T>::type),
        X1(RemoveConstType, typename std::remove_const<T>::type),
        X1(RemoveVolatileType, typename std::remove_volatile<T>::type),
        X1(RemoveCVType, typename std::remove_cv<T>::type),
        X1(AddPointerType, typename std::add_pointer<T>::type),
        X1(RemovePointerType, typename std::remove_pointer<T>::type),
        X1(AddLValueReferenceType, typename std::add_lvalue_reference<T>::type),
        X1(AddRValueReferenceType, typename std::add_rvalue_reference<T>::type),
        X1(RemoveReferenceType, typename std::remove_reference<T>::type),
    };
    return rows(id, r);
}

// Types that have an alignment
template <class T>
static int aligned(const char* id)
{
    const Row r[] = {
#ifndef STD_ONLY
        {"AlignmentOf", std::integral_constant<std::size_t, Caitlyn::AlignmentOf<T>()>::value, std::alignment_of<T>::value},
#else
        {"AlignmentOf", std::alignment_of<T>::value, std::alignment_of<T>::value},
#endif
    };
    return rows(id, r);
}

// Plain integer types
template <class T>
static int integer(const char* id)
{
    const Row r[] = {X1(MakeSignedType, typename std::make_signed<T>::type), X1(MakeUnsignedType, typename std::make_unsigned<T>::type)};
    return rows(id, r);
}

template <class T, class S>
static int two(const char* id)
{
    const Row r[] = {
#ifndef STD_ONLY
        {"Same", std::integral_constant<bool, Caitlyn::Same<T, S>()>::value, std::is_same<T, S>::value},
        {"IsSameType", Caitlyn::IsSameType<T, S>::Value, std::is_same<T, S>::value},
        {"Different", std::integral_constant<bool, Caitlyn::Different<T, S>()>::value, !std::is_same<T, S>::value},
#endif
        Q2(BaseOf, is_base_of),
        Q2(Convertible, is_convertible),
        Q2(Assignable, is_assignable),
        Q2(TriviallyAssignable, is_trivially_assignable),
        Q2(NothrowAssignable, is_nothrow_assignable),
    };
    return rows(id, r);
}

#endif // GEN_TRAITS_H_
