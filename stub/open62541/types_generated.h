#include "ua_stub.h"
