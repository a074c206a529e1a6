// Instantiation unit: forces the FF<61> instances of the library's templates to be emitted.
// No code of its own.
#include "scl/math.h"
#include "scl/networking.h"
#include "scl/prg.h"
#include "scl/secret_sharing.h"
template class scl::details::FF<61, scl::details::FieldSelector<61>::Field>;
template class scl::Vec<scl::details::FF<61, scl::details::FieldSelector<61>::Field>>;
template class scl::Mat<scl::details::FF<61, scl::details::FieldSelector<61>::Field>>;
template class scl::details::Polynomial<scl::details::FF<61, scl::details::FieldSelector<61>::Field>>;
template class scl::details::EvPolynomial<scl::details::FF<61, scl::details::FieldSelector<61>::Field>>;
using VF = scl::details::FF<61, scl::details::FieldSelector<61>::Field>;
template scl::Vec<VF> scl::CreateAdditiveShares<VF>(const VF&, std::size_t, scl::PRG&);
template VF scl::ReconstructAdditive<VF>(const scl::Vec<VF>&);
template scl::details::Polynomial<VF> scl::details::CreateShamirSharePolynomial<VF>(const VF&, std::size_t, scl::PRG&);
template VF scl::details::InterpolateAt<VF>(const scl::Vec<VF>&, const scl::Vec<VF>&, std::size_t, const VF&, std::size_t);
template scl::Vec<VF> scl::CreateShamirShares<VF>(const scl::details::Polynomial<VF>&, const scl::Vec<VF>&);
template scl::Vec<VF> scl::CanonicalAlphas<VF>(std::size_t);
template scl::Vec<VF> scl::CreateShamirShares<VF>(const VF&, std::size_t, std::size_t, scl::PRG&);
template VF scl::ReconstructShamirPassive<VF>(const scl::Vec<VF>&, const scl::Vec<VF>&, const VF&, std::size_t);
template VF scl::ReconstructShamirPassive<VF>(const scl::Vec<VF>&, std::size_t);
template VF scl::ReconstructShamir<VF>(const scl::Vec<VF>&, const scl::Vec<VF>&, const VF&, std::size_t);
template VF scl::ReconstructShamir<VF>(const scl::Vec<VF>&, std::size_t);
template std::array<scl::details::Polynomial<VF>, 2> scl::ReconstructShamirRobust<VF>(const scl::Vec<VF>&, const scl::Vec<VF>&, std::size_t);
template VF scl::ReconstructShamirRobust<VF>(const scl::Vec<VF>&, std::size_t);
template scl::details::EvPolynomial<VF> scl::details::EvPolyFromSecretsAndPoints<VF>(const scl::Vec<VF>&, const scl::Vec<VF>&, scl::PRG&);
template scl::details::EvPolynomial<VF> scl::details::EvPolyFromSecretsAndDegree<VF>(const scl::Vec<VF>&, std::size_t, scl::PRG&);
template scl::details::EvPolynomial<VF> scl::details::EvPolyFromSecretAndPointAndDegree<VF>(const VF&, const VF&, std::size_t, scl::PRG&);
template scl::details::EvPolynomial<VF> scl::details::EvPolyFromSecretAndDegree<VF>(const VF&, std::size_t, scl::PRG&);
template scl::Vec<VF> scl::details::SharesFromEvPoly<VF>(const scl::details::EvPolynomial<VF>&, std::size_t);
template scl::details::EvPolynomial<VF> scl::details::EvPolyFromShares<VF>(const scl::Vec<VF>&);
template scl::Vec<VF> scl::details::SecretsFromPointsAndShares<VF>(const scl::Vec<VF>&, const scl::Vec<VF>&);
template scl::Vec<VF> scl::details::SecretsFromSharesAndLength<VF>(const scl::Vec<VF>&, std::size_t);
template VF scl::details::SecretFromPointAndShares<VF>(const VF&, const scl::Vec<VF>&);
template VF scl::details::SecretFromShares<VF>(const scl::Vec<VF>&);
template bool scl::details::SolveLinearSystem<VF>(scl::Vec<VF>&, const scl::Mat<VF>&, const scl::Vec<VF>&);
template bool scl::details::HasSolution<VF>(const scl::Mat<VF>&, bool);
template void scl::details::RowReduceInPlace<VF>(scl::Mat<VF>&);
