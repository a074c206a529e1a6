// Instantiation unit: forces the word-level instances of the library's templates to be emitted.
// No code of its own.
#include "scl/hash.h"
#include "scl/math.h"
#include "scl/math/z2k.h"
template class scl::details::FF<61, scl::details::FieldSelector<61>::Field>;
template class scl::details::FF<127, scl::details::FieldSelector<127>::Field>;
template class scl::details::Hash<256>;
template class scl::details::Hash<384>;
template class scl::details::Hash<512>;
template class scl::Z2k<1>;
template class scl::Z2k<2>;
template class scl::Z2k<3>;
template class scl::Z2k<4>;
template class scl::Z2k<5>;
template class scl::Z2k<6>;
template class scl::Z2k<7>;
template class scl::Z2k<8>;
template class scl::Z2k<9>;
template class scl::Z2k<10>;
template class scl::Z2k<11>;
template class scl::Z2k<12>;
template class scl::Z2k<13>;
template class scl::Z2k<14>;
template class scl::Z2k<15>;
template class scl::Z2k<16>;
template class scl::Z2k<17>;
template class scl::Z2k<18>;
template class scl::Z2k<19>;
template class scl::Z2k<20>;
template class scl::Z2k<21>;
template class scl::Z2k<22>;
template class scl::Z2k<23>;
template class scl::Z2k<24>;
template class scl::Z2k<25>;
template class scl::Z2k<26>;
template class scl::Z2k<27>;
template class scl::Z2k<28>;
template class scl::Z2k<29>;
template class scl::Z2k<30>;
template class scl::Z2k<31>;
template class scl::Z2k<32>;
template class scl::Z2k<33>;
template class scl::Z2k<34>;
template class scl::Z2k<35>;
template class scl::Z2k<36>;
template class scl::Z2k<37>;
template class scl::Z2k<38>;
template class scl::Z2k<39>;
template class scl::Z2k<40>;
template class scl::Z2k<41>;
template class scl::Z2k<42>;
template class scl::Z2k<43>;
template class scl::Z2k<44>;
template class scl::Z2k<45>;
template class scl::Z2k<46>;
template class scl::Z2k<47>;
template class scl::Z2k<48>;
template class scl::Z2k<49>;
template class scl::Z2k<50>;
template class scl::Z2k<51>;
template class scl::Z2k<52>;
template class scl::Z2k<53>;
template class scl::Z2k<54>;
template class scl::Z2k<55>;
template class scl::Z2k<56>;
template class scl::Z2k<57>;
template class scl::Z2k<58>;
template class scl::Z2k<59>;
template class scl::Z2k<60>;
template class scl::Z2k<61>;
template class scl::Z2k<62>;
template class scl::Z2k<63>;
template class scl::Z2k<64>;
template class scl::Z2k<65>;
template class scl::Z2k<66>;
template class scl::Z2k<67>;
template class scl::Z2k<68>;
template class scl::Z2k<69>;
template class scl::Z2k<70>;
template class scl::Z2k<71>;
template class scl::Z2k<72>;
template class scl::Z2k<73>;
template class scl::Z2k<74>;
template class scl::Z2k<75>;
template class scl::Z2k<76>;
template class scl::Z2k<77>;
template class scl::Z2k<78>;
template class scl::Z2k<79>;
template class scl::Z2k<80>;
template class scl::Z2k<81>;
template class scl::Z2k<82>;
template class scl::Z2k<83>;
template class scl::Z2k<84>;
template class scl::Z2k<85>;
template class scl::Z2k<86>;
template class scl::Z2k<87>;
template class scl::Z2k<88>;
template class scl::Z2k<89>;
template class scl::Z2k<90>;
template class scl::Z2k<91>;
template class scl::Z2k<92>;
template class scl::Z2k<93>;
template class scl::Z2k<94>;
template class scl::Z2k<95>;
template class scl::Z2k<96>;
template class scl::Z2k<97>;
template class scl::Z2k<98>;
template class scl::Z2k<99>;
template class scl::Z2k<100>;
template class scl::Z2k<101>;
template class scl::Z2k<102>;
template class scl::Z2k<103>;
template class scl::Z2k<104>;
template class scl::Z2k<105>;
template class scl::Z2k<106>;
template class scl::Z2k<107>;
template class scl::Z2k<108>;
template class scl::Z2k<109>;
template class scl::Z2k<110>;
template class scl::Z2k<111>;
template class scl::Z2k<112>;
template class scl::Z2k<113>;
template class scl::Z2k<114>;
template class scl::Z2k<115>;
template class scl::Z2k<116>;
template class scl::Z2k<117>;
template class scl::Z2k<118>;
template class scl::Z2k<119>;
template class scl::Z2k<120>;
template class scl::Z2k<121>;
template class scl::Z2k<122>;
template class scl::Z2k<123>;
template class scl::Z2k<124>;
template class scl::Z2k<125>;
template class scl::Z2k<126>;
template class scl::Z2k<127>;
template class scl::Z2k<128>;
// the ring operators are friends defined in a class template: emitted only where used
template <typename T>
void UseRing(T& a, const T& b, bool& r) {
  a = a + b; a = a - b; a = -b; a = a * b; a = a / b; r = a == b; r = a != b;
}
using W61 = scl::details::FF<61, scl::details::FieldSelector<61>::Field>;
using W127 = scl::details::FF<127, scl::details::FieldSelector<127>::Field>;
template void UseRing<W61>(W61&, const W61&, bool&);
template void UseRing<W127>(W127&, const W127&, bool&);
template void UseRing<scl::Z2k<7>>(scl::Z2k<7>&, const scl::Z2k<7>&, bool&);
template void UseRing<scl::Z2k<64>>(scl::Z2k<64>&, const scl::Z2k<64>&, bool&);
template void UseRing<scl::Z2k<128>>(scl::Z2k<128>&, const scl::Z2k<128>&, bool&);
// inline members of the generator
#include "scl/prg.h"
void UsePrg(scl::PRG& p, std::vector<unsigned char>& v, std::size_t n) {
  p.Next(v); p.Next(v, n); std::vector<unsigned char> w = p.Next(n);
}
