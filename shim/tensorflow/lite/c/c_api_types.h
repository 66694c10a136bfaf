// Stand-in declarations for TensorFlow Lite (not installed here).
#ifndef VERIF_TFLITE_STUB_H
#define VERIF_TFLITE_STUB_H
#include <stdint.h>
#include <cstddef>
#include <functional>
#include <memory>
#include <map>
#include <string>
typedef enum TfLiteStatus { kTfLiteOk = 0, kTfLiteError = 1, kTfLiteDelegateError = 2, kTfLiteApplicationError = 3 } TfLiteStatus;
typedef union TfLitePtrUnion { float* f; int32_t* i32; void* data; } TfLitePtrUnion;
typedef struct TfLiteTensor { TfLitePtrUnion data; } TfLiteTensor;
typedef struct TfLiteDelegate { int64_t flags; } TfLiteDelegate;
enum { kTfLiteDelegateFlagsAllowDynamicTensors = 1 };
typedef struct TfLiteXNNPackDelegateOptions { int32_t num_threads; uint32_t flags; } TfLiteXNNPackDelegateOptions;
#define TFLITE_XNNPACK_DELEGATE_FLAG_QU8 0x2
TfLiteDelegate* TfLiteXNNPackDelegateCreate(const TfLiteXNNPackDelegateOptions* options);
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* delegate);
namespace tflite {
class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromFile(const char* filename);
};
class SignatureRunner {
 public:
  TfLiteTensor* input_tensor(const char* name);
  const TfLiteTensor* output_tensor(const char* name) const;
  TfLiteStatus Invoke();
  std::map<std::string, TfLiteTensor> in_, out_;
};
class Interpreter {
 public:
  TfLiteStatus AllocateTensors();
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate* delegate);
  SignatureRunner* GetSignatureRunner(const char* name);
  SignatureRunner runner_;
};
namespace ops { namespace builtin { class BuiltinOpResolver { public: int pad; }; } }
class InterpreterBuilder {
 public:
  InterpreterBuilder(const FlatBufferModel& model, const ops::builtin::BuiltinOpResolver& resolver);
  TfLiteStatus SetNumThreads(int n);
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* interpreter);
};
}  // namespace tflite
#endif
