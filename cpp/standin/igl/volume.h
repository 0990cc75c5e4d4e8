#include "standin.h"
