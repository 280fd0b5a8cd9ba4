// sizes given in the scalar type convert implicitly, as double does
template<class T, class = typename std::enable_if<std::is_same<T, ::pv::Sym>::value && std::is_same<T, Scalar>::value>::type>
EIGEN_DEVICE_FUNC static auto LinSpaced(const T& size, const Scalar& low, const Scalar& high) -> decltype(DenseBase::LinSpaced(Index(0), low, high)) { return DenseBase::LinSpaced(static_cast<Index>(static_cast<long>(size)), low, high); }
