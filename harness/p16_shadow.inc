// Included inside a namespace just before a shipped program: the program's tp::Circuit and tp::DN07 are the
// real ones plus marks of where it is and a record of what the first party obtains.
namespace tp {
using namespace ::tp;
class Circuit : public ::tp::Circuit {
  using B = ::tp::Circuit;
 public:
  using B::B;
  Circuit(const B& b) : B(b) {}
  Circuit() {}
  static Circuit FromConfig(CircuitConfig c) { p16::built(c); return Circuit(B::FromConfig(c)); }
  void SetNetwork(std::shared_ptr<scl::Network> n, std::size_t id) { p16::connected(); B::SetNetwork(n, id); }
  void FIPrepRecv() { p16::mark("fi"); B::FIPrepRecv(); }
  void GenProdPartiesReceive() { p16::mark("prod"); B::GenProdPartiesReceive(); }
  void MapCorrToCircuit() { p16::mark("fd"); B::MapCorrToCircuit(); }
  void SetInputs(std::vector<FF> v) { p16::inputs(v); B::SetInputs(v); }
  void InputOwnerSendsP1() { p16::mark("online"); B::InputOwnerSendsP1(); }
  void RunInput() { p16::mark("online"); B::RunInput(); }
  void MultP1Sends(std::size_t l) { if (l == 1) p16::mark("later-layers"); B::MultP1Sends(l); }
  void OutputP1SendsMu() { p16::mark("out"); B::OutputP1SendsMu(); }
  void OutputOwnerReceivesMu() { B::OutputOwnerReceivesMu(); seen(); }
  void RunOutput() { p16::mark("out"); B::RunOutput(); seen(); }
  void RunProtocol() { p16::mark("online"); B::RunProtocol(); seen(); }
 private:
  void seen() { if (p16::first_party()) { std::vector<FF> v = GetOutputs(); p16::result(v); } }
};
class DN07 : public ::tp::DN07 {
  using B = ::tp::DN07;
 public:
  using B::B;
  Circuit GetCircuit() { return Circuit(B::GetCircuit()); }
  void PrepPartiesReceive() { p16::mark("dn-prep"); B::PrepPartiesReceive(); }
  void FDMapPrepToGates() { p16::mark("dn-fd"); B::FDMapPrepToGates(); }
  void InputPartiesSendOwners() { p16::mark("dn-in"); B::InputPartiesSendOwners(); }
  void MultP1Receives(std::size_t l) { if (l < 2) p16::mark(l ? "dn-later-layers" : "dn-mult"); B::MultP1Receives(l); }
  void OutputPartiesSendOwners() { p16::mark("dn-out"); B::OutputPartiesSendOwners(); }
  void OutputOwnersReceive() {
    B::OutputOwnersReceive();
    if (p16::first_party()) { std::vector<FF> v; for (std::size_t i = 0; i < p16::outputs_of_first(); ++i) v.push_back(GetOutput(0, i)); p16::result(v); }
  }
};
}  // namespace tp
