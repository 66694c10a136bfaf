#include "tensorflow/lite/c/c_api_types.h"
