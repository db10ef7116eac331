#include "msat_codec_stub.h"
