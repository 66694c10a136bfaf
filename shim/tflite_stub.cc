// Stand-in for TensorFlow Lite: records what the mapper hands over, returns a fixed function of it.
#include <cstdio>
#include <map>
#include <string>
#include "tensorflow/lite/interpreter.h"
std::map<std::string, float> g_tfl_inputs;     // inputs at the last Invoke
int g_tfl_invokes = 0, g_tfl_order = 0;        // order: writes after Invoke would be seen as differing inputs
float (*g_tfl_model)(const std::map<std::string, float>&) = nullptr;
bool g_tfl_fail_build = false, g_tfl_fail_alloc = false;
std::string g_tfl_path, g_tfl_signature;
static TfLiteDelegate g_del;
TfLiteDelegate* TfLiteXNNPackDelegateCreate(const TfLiteXNNPackDelegateOptions*) { return new TfLiteDelegate(); }
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* d) { delete d; }
namespace tflite {
std::unique_ptr<FlatBufferModel> FlatBufferModel::BuildFromFile(const char* f) {
  g_tfl_path = f;
  FILE* h = fopen(f, "rb");
  if (!h) return nullptr;
  int c = fgetc(h); fclose(h);
  return c == EOF ? nullptr : std::make_unique<FlatBufferModel>();
}
TfLiteTensor* SignatureRunner::input_tensor(const char* n) { auto& t = in_[n]; if (!t.data.f) t.data.f = new float(-777); return &t; }
const TfLiteTensor* SignatureRunner::output_tensor(const char* n) const { auto& t = const_cast<SignatureRunner*>(this)->out_[n]; if (!t.data.f) t.data.f = new float(-777); return &t; }
TfLiteStatus SignatureRunner::Invoke() {
  g_tfl_inputs.clear(); g_tfl_invokes++;
  for (auto& p : in_) g_tfl_inputs[p.first] = *p.second.data.f;
  auto& t = out_["predictions"]; if (!t.data.f) t.data.f = new float(0);
  float s = 1; if (g_tfl_model) s = g_tfl_model(g_tfl_inputs); else { double a = 0; int n = 0; for (auto& p : in_) if (p.first.rfind("fvnsim", 0) == 0 && p.first.rfind("fvnsim10", 0) != 0) { a += *p.second.data.f; n++; } s = 1 + 4 * (n ? a / n : 0); }
  *t.data.f = s;
  return kTfLiteOk;
}
TfLiteStatus Interpreter::AllocateTensors() { return g_tfl_fail_alloc ? kTfLiteError : kTfLiteOk; }
TfLiteStatus Interpreter::ModifyGraphWithDelegate(TfLiteDelegate*) { return kTfLiteOk; }
SignatureRunner* Interpreter::GetSignatureRunner(const char* n) { g_tfl_signature = n; return &runner_; }
InterpreterBuilder::InterpreterBuilder(const FlatBufferModel&, const ops::builtin::BuiltinOpResolver&) {}
TfLiteStatus InterpreterBuilder::SetNumThreads(int) { return kTfLiteOk; }
TfLiteStatus InterpreterBuilder::operator()(std::unique_ptr<Interpreter>* i) { if (g_tfl_fail_build) return kTfLiteError; *i = std::make_unique<Interpreter>(); return kTfLiteOk; }
}
