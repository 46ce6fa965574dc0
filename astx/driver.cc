// Instantiates the templates of /repo/src at the types the system uses.
#include <cstdint>
#include "frn.h"
#include "frn/lib/math/mat.h"
#include "frn/lib/math/vec.h"
#include "frn/lib/math/p.h"
#include "frn/lib/math/fp.h"
#include "frn/lib/net/builder.h"
#include "frn/lib/net/shared_deque.h"
#include "frn/lib/net/channel.h"
#include "frn/lib/primitives/hash.h"
#include "frn/lib/primitives/prg.h"
#include "frn/lib/secret_sharing/additive.h"
#include "frn/lib/secret_sharing/rep.h"
#include "frn/check.h"
#include "frn/mult.h"
#include "frn/input.h"
#include "frn/tcp_network.h"
using F61 = frn::lib::math::FpElement<frn::lib::math::Mp61>;
using F127 = frn::lib::math::FpElement<frn::lib::math::Mp127>;
template class frn::lib::math::FpElement<frn::lib::math::Mp61>;
template class frn::lib::math::FpElement<frn::lib::math::Mp127>;
template struct frn::lib::math::Prime<frn::lib::math::Mp61, std::uint64_t, std::int64_t>;
template struct frn::lib::math::Prime<frn::lib::math::Mp127, __uint128_t, __int128_t>;
template class frn::lib::math::Matrix<F61>;
template class frn::lib::secret_sharing::Replicator<F61>;
template class frn::lib::primitives::Hash<frn::lib::primitives::SHA3_256>;
template class frn::lib::primitives::Hash<frn::lib::primitives::SHA3_384>;
template class frn::lib::primitives::Hash<frn::lib::primitives::SHA3_512>;
template class frn::lib::net::SharedDeque<std::vector<unsigned char>>;
template <typename F> static void use_field(F a, F b) {
  (void)(a + b); (void)(a - b); (void)(a * b); (void)(a / b); (void)(-a);
  (void)(a == b); (void)(a != b); (void)F::kZero; (void)F::kOne;
  (void)frn::lib::utils::from_string<typename F::ValueType>(std::string());
}
template <typename F> static void use_vec(std::vector<F> &v, const F &s) {
  frn::lib::math::vector::Dot(v, v); frn::lib::math::vector::AddInto(v, v); frn::lib::math::vector::Add(v, v); frn::lib::math::vector::SubtractInto(v, v);
  frn::lib::math::vector::Subtract(v, v); frn::lib::math::vector::MultiplyInto(v, v); frn::lib::math::vector::Multiply(v, v);
  frn::lib::math::vector::ScaleBy(v, s); frn::lib::math::vector::Scale(v, s); frn::lib::math::vector::ToBytes((unsigned char *)0, v);
  frn::lib::math::vector::FromBytes<F>((const unsigned char *)0, 0); frn::lib::math::vector::Sum(v);
}
void use_all(F61 a, F127 b, std::vector<F61> &v, frn::lib::primitives::PRG &prg) {
  use_field(a, a); use_field(b, b);
  use_vec(v, a);
  frn::lib::math::create_vandermonde_matrix(v, 0);
  frn::lib::math::create_vandermonde_matrix(a, 0, 0);
  frn::lib::secret_sharing::ShareAdditive(a, 0, prg);
  std::vector<int> c;
  frn::lib::secret_sharing::NextCombination(c, 0, 0);
  frn::lib::secret_sharing::NthCombination(c, 0, 0);
  frn::lib::secret_sharing::Intersection(c, c, [](int) {});
  frn::lib::secret_sharing::Difference(c, c, [](int) {});
  frn::lib::secret_sharing::Binom(0, 0);
}
