// Instantiation unit: forces the inline member functions of the tp classes that no source file of
// the library itself uses to be emitted.  No code of its own.
#include "tp/circuits.h"
#include "tp/dn07.h"
namespace {
using S = std::size_t;
using N = std::shared_ptr<scl::Network>;
template <class M> void keep(M m) { static volatile M sink = m; (void)sink; }
}
void verif_keep() {
#define K(C, m) keep(&tp::C::m)
#define O(C, m, ...) keep(static_cast<__VA_ARGS__>(&tp::C::m))
  K(Gate, GetShrLambda); K(Gate, IsLearned); K(Gate, IsEvaluated); K(Gate, SetDn07Share); K(Gate, GetLeft); K(Gate, GetRight); K(Gate, IsPadding); K(Gate, _SetDummyMu);
  K(MultGate, SetDummyLambda); K(MultGate, SetIndvShrLambda); K(PadMultGate, UpdateParents);
  K(MultBatch, Append); K(MultBatch, GetClear); K(MultBatch, HasRoom); K(MultBatch, SetNetwork); K(MultBatch, PrepFromDummyLambdas); K(MultBatch, SetPreprocessing); K(MultBatch, RunProtocol);
  O(MultBatch, _DummyPrep, void (tp::MultBatch::*)(tp::FF, tp::FF, tp::FF));
  K(MultLayer, Append); K(MultLayer, Close); K(MultLayer, ClearEvaluation); K(MultLayer, SetNetwork); K(MultLayer, GetSize); K(MultLayer, P1Sends); K(MultLayer, PartiesReceive); K(MultLayer, PartiesSend); K(MultLayer, P1Receives); K(MultLayer, PrepFromDummyLambdas);
  K(InputGate, ClearInput); K(InputGate, SetIndvShrLambda); K(InputGate, SetNetwork); K(InputGate, SetInput); K(InputGate, OwnerSendsP1); K(InputGate, P1Receives); K(InputGate, SetLambda);
  K(InputBatch, Append); K(InputBatch, GetClear); K(InputBatch, HasRoom); K(InputBatch, SetNetwork); K(InputBatch, PrepFromDummyLambdas); K(InputBatch, SetPreprocessing); K(InputBatch, GetPackedShrLambda);
  K(InputLayer, Append); K(InputLayer, Close); K(InputLayer, ClearEvaluation); K(InputLayer, SetNetwork); K(InputLayer, GetSize);
  K(OutputGate, SetNetwork); K(OutputGate, P1SendsMu); K(OutputGate, OwnerReceivesMu); K(OutputGate, SetLambda); K(PadOutputGate, UpdateParent);
  K(OutputBatch, Append); K(OutputBatch, GetClear); K(OutputBatch, HasRoom); K(OutputBatch, SetNetwork); K(OutputBatch, PrepFromDummyLambdas); K(OutputBatch, SetPreprocessing); K(OutputBatch, GetPackedShrLambda);
  K(OutputLayer, Append); K(OutputLayer, Close); K(OutputLayer, ClearEvaluation); K(OutputLayer, SetNetwork); K(OutputLayer, GetSize);
  K(Circuit, CloseInputs); K(Circuit, CloseOutputs); K(Circuit, Add); K(Circuit, SetNetwork); K(Circuit, GetDepth); K(Circuit, GetWidth); K(Circuit, GetSize); K(Circuit, GetNInputs); K(Circuit, GetNOutputs); K(Circuit, GetNInputBatches); K(Circuit, GetNOutputBatches); K(Circuit, GetNMultBatches); K(Circuit, SetThreshold);
  K(CircuitConfig, ComputeNumberOfInputs); K(CircuitConfig, ComputeNumberOfOutputs);
  K(Correlator, SetThreshold); K(Correlator, SetNetwork); K(Correlator, PrecomputeEi); K(Correlator, PrecomputeVandermonde); K(Correlator, PopulateMultBatches); K(Correlator, PopulateInputBatches); K(Correlator, PopulateOutputBatches); K(Correlator, GenIndShrsDummy); K(Correlator, GenMultBatchDummy); K(Correlator, GenIOBatchDummy);
  O(Correlator, PopulateIndvShrs, void (tp::Correlator::*)(std::shared_ptr<tp::MultGate>));
  O(Correlator, PopulateIndvShrs, void (tp::Correlator::*)(std::shared_ptr<tp::InputGate>));
  O(Correlator, PopulateIndvShrs, void (tp::Correlator::*)(std::shared_ptr<tp::AddGate>));
  O(Correlator, PopulateIndvShrs, void (tp::Correlator::*)(std::shared_ptr<tp::OutputGate>));
  K(DN07, GetOutput); K(DN07, PrecomputeVandermonde);
}
void verif_new(std::shared_ptr<tp::Gate> g, S a, S b, tp::FF f) {
  tp::MultGate m(g, g); tp::MultBatch mb(a); tp::MultLayer ml(a); tp::InputGate ig(a); tp::InputBatch ib(a, b); tp::InputLayer il(a, b);
  tp::OutputGate og(a, g); tp::OutputBatch ob(a, b); tp::OutputLayer ol(a, b); tp::AddGate ad(g, g); tp::Correlator c(a, a, a, b); tp::DN07 d(a, b);
  tp::PadMultGate pm; tp::PadInputGate pi(a); tp::PadOutputGate po(a); tp::MultBatchFIPrep x(f), y; tp::IOBatchFIPrep z; tp::Circuit cc(a, b), c2;
}
