// Instantiation unit for the channel templates.  No code of its own.
#include "scl/math.h"
#include "scl/net/channel.h"
#include "scl/net/mem_channel.h"
#include "scl/net/tcp_channel.h"
#include "scl/net/tcp_utils.h"
#include "scl/net/shared_deque.h"
using F61 = scl::details::FF<61, scl::details::FieldSelector<61>::Field>;
using F127 = scl::details::FF<127, scl::details::FieldSelector<127>::Field>;
template <typename T>
void UseChan(scl::Channel& c, scl::Vec<T>& v, scl::Mat<T>& m) { c.Send(v); c.Recv(v); c.Send(m); c.Recv(m); }
template void UseChan<F61>(scl::Channel&, scl::Vec<F61>&, scl::Mat<F61>&);
template void UseChan<F127>(scl::Channel&, scl::Vec<F127>&, scl::Mat<F127>&);
void UseChan2(scl::Channel& c, unsigned int& a, unsigned long& b, std::vector<unsigned char>& v, std::vector<unsigned short>& w, F61& x, F127& y) {
  c.Send(a); c.Recv(a); c.Send(b); c.Recv(b); c.Send(v); c.Recv(v); c.Send(w); c.Recv(w); c.Send(x); c.Recv(x); c.Send(y); c.Recv(y);
}
template class scl::details::SharedDeque<std::vector<unsigned char>>;
void UseMem(scl::InMemoryChannel& c) { c.Flush(); }
